"""C22 a command says the same in all its views, however it was made and edited"""
from copy import copy, deepcopy

from .. import gen, history, interrupt, model, observe
from ..core import Violation

RUNS = {'quick': 1800, 'thorough': 100000}
RULE = ("one run = several clients, interleaved by the scheduler, working on a shared pool of commands, words and lines: they make "
        "them from classes and parameters, from words and from text, assign, add, change and remove parameters, copy, compare, "
        "sort and write them, put them together as lines, have machines execute them, are refused parameters, and abandon operations at arbitrary "
        "instructions; after every operation every command and line of the pool is compared with a reference in all its views "
        "(word, parameters, attributes, dictionary, text as the model reads it); non-trivial: a parameter was edited after the "
        "command had been copied, executed, compared or written, and an operation was refused or abandoned; "
        "distinct by scenario content")
REAL = ['pygcode.gcodes', 'pygcode.words', 'pygcode.block', 'pygcode.line', 'pygcode.machine']
STUB = ['clients and their schedule (simulated)', 'reference model (sim/model.py): table of codes, reading of texts, machine']
MEASURE = 'distinct (operation, command, outcome) combinations'
ASSUMPTIONS = ['texts show three decimals',
               'a word object is given to one command only, and not edited by the giver afterwards',
               'copies are deep ones (a shallow copy shares its parameters, as everywhere in Python)',
               'an attribute which is no parameter of the command may be set like any attribute; it is not asked for']

# names in the library's interface, and what they stand for
CLASSES = {
    'GCodeRapidMove': 'G0', 'GCodeLinearMove': 'G1', 'GCodeArcMoveCW': 'G2', 'GCodeArcMoveCCW': 'G3', 'GCodeDwell': 'G4',
    'GCodeCublcSpline': 'G5', 'GCodeQuadraticSpline': 'G5.1', 'GCodeNURBS': 'G5.2', 'GCodeNURBSEnd': 'G5.3',
    'GCodeStraightProbe': 'G38.2', 'GCodeSpindleSyncMotion': 'G33', 'GCodeRigidTapping': 'G33.1', 'GCodeCancelCannedCycle': 'G80',
    'GCodeDrillingCycle': 'G81', 'GCodeDrillingCycleDwell': 'G82', 'GCodeDrillingCyclePeck': 'G83',
    'GCodeDrillingCycleChipBreaking': 'G73', 'GCodeBoringCycleFeedOut': 'G85', 'GCodeBoringCycleDwellFeedOut': 'G89',
    'GCodeThreadingCycle': 'G76', 'GCodeAbsoluteDistanceMode': 'G90', 'GCodeIncrementalDistanceMode': 'G91',
    'GCodeAbsoluteArcDistanceMode': 'G90.1', 'GCodeIncrementalArcDistanceMode': 'G91.1', 'GCodeLatheDiameterMode': 'G7',
    'GCodeLatheRadiusMode': 'G8', 'GCodeInverseTimeMode': 'G93', 'GCodeUnitsPerMinuteMode': 'G94',
    'GCodeUnitsPerRevolution': 'G95', 'GCodeStartSpindleCW': 'M3', 'GCodeStartSpindleCCW': 'M4', 'GCodeStopSpindle': 'M5',
    'GCodeOrientSpindle': 'M19', 'GCodeSpindleConstantSurfaceSpeedMode': 'G96', 'GCodeSpindleRPMMode': 'G97',
    'GCodeCoolantMistOn': 'M7', 'GCodeCoolantFloodOn': 'M8', 'GCodeCoolantOff': 'M9', 'GCodeToolLengthOffset': 'G43',
    'GCodeDynamicToolLengthOffset': 'G43.1', 'GCodeAddToolLengthOffset': 'G43.2', 'GCodeCancelToolLengthOffset': 'G49',
    'GCodePauseProgram': 'M0', 'GCodePauseProgramOptional': 'M1', 'GCodeEndProgram': 'M2', 'GCodeEndProgramPalletShuttle': 'M30',
    'GCodePalletChangePause': 'M60', 'GCodeUseInches': 'G20', 'GCodeUseMillimeters': 'G21', 'GCodeSelectXYPlane': 'G17',
    'GCodeSelectZXPlane': 'G18', 'GCodeSelectYZPlane': 'G19', 'GCodeSelectUVPlane': 'G17.1', 'GCodeSelectWUPlane': 'G18.1',
    'GCodeSelectVWPlane': 'G19.1', 'GCodeCutterRadiusCompOff': 'G40', 'GCodeCutterCompLeft': 'G41', 'GCodeCutterCompRight': 'G42',
    'GCodeDynamicCutterCompLeft': 'G41.1', 'GCodeDynamicCutterCompRight': 'G42.1', 'GCodeExactPathMode': 'G61',
    'GCodeExactStopMode': 'G61.1', 'GCodePathBlendingMode': 'G64', 'GCodeCannedCycleReturnPrevLevel': 'G98',
    'GCodeCannedCycleReturnToR': 'G99', 'GCodeSpeedAndFeedOverrideOn': 'M48', 'GCodeSpeedAndFeedOverrideOff': 'M49',
    'GCodeFeedOverride': 'M50', 'GCodeSpindleSpeedOverride': 'M51', 'GCodeAdaptiveFeed': 'M52', 'GCodeFeedStop': 'M53',
    'GCodeSelectCoordinateSystem1': 'G54', 'GCodeSelectCoordinateSystem2': 'G55', 'GCodeSelectCoordinateSystem3': 'G56',
    'GCodeSelectCoordinateSystem4': 'G57', 'GCodeSelectCoordinateSystem5': 'G58', 'GCodeSelectCoordinateSystem6': 'G59',
    'GCodeSelectCoordinateSystem7': 'G59.1', 'GCodeSelectCoordinateSystem8': 'G59.2', 'GCodeSelectCoordinateSystem9': 'G59.3',
    'GCodeDigitalOutputOnSyncd': 'M62', 'GCodeDigitalOutputOffSyncd': 'M63', 'GCodeDigitalOutputOn': 'M64',
    'GCodeDigitalOutputOff': 'M65', 'GCodeWaitOnInput': 'M66', 'GCodeAnalogOutputSyncd': 'M67', 'GCodeAnalogOutputImmediate': 'M68',
    'GCodeToolChange': 'M6', 'GCodeToolSetCurrent': 'M61', 'GCodeSet': 'G10', 'GCodeGotoPredefinedPosition': 'G28',
    'GCodeSetPredefinedPosition': 'G28.1', 'GCodeMoveInMachineCoords': 'G53', 'GCodeCoordSystemOffset': 'G92',
    'GCodeResetCoordSystemOffset': 'G92.1', 'GCodeRestoreCoordSystemOffset': 'G92.3',
}
NUMBERED = {'GCodeFeedRate': 'F', 'GCodeSpindleSpeed': 'S', 'GCodeSelectTool': 'T', 'GCodeLineNumber': 'N'}
MODAL_BY_DEFAULT = {'GCodeFeedRate': 'F', 'GCodeSpindleSpeed': 'S', 'GCodeSelectTool': 'T'}
FAMILIES = [[('G', 38.2), ('G', 38.3), ('G', 38.4), ('G', 38.5)], [('G', 28.0), ('G', 30.0)], [('G', 28.1), ('G', 30.1)], [('G', 92.1), ('G', 92.2)]]
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
INTS = 'LNT'


def value(rng, letter):
    if letter in INTS:
        return rng.randint(0, 9)
    v = rng.choice([0, 1, -1, -2, 2.5, 0.001, 0.0004, 6e-17, -2e-9, -1.00049, rng.randint(-50000, 50000) / 1e4, -0.125, 10, 100, 12345.678, rng.randint(-5000, 5000) / 1000.0, rng.randint(-50, 50)])
    return abs(v) if letter in 'FS' and rng.random() < 0.8 else v


def spec(word):
    return model.spec_of(word)


def some(rng, letters, p=0.5):
    return dict((l, value(rng, l)) for l in sorted(letters) if rng.random() < p)


def strike(rng):
    if rng.random() < 0.75:
        return None
    return [round(rng.random(), 4), rng.choice(['KeyboardInterrupt', 'MemoryError']), rng.random() < 0.5]


def generate(rng, tier, index):
    names = ['c%d' % i for i in range(rng.randint(3, 6))]
    favourites = rng.sample(sorted(CLASSES), 6) + ['GCodeStraightProbe', 'GCodeRapidMove', 'GCodeLinearMove', 'GCodeArcMoveCW', 'GCodeDrillingCyclePeck']
    feats = gen.swarm(rng)
    g = gen.Gen(rng, feats, 'XYZ', machine=model.Machine('XYZ'))

    def cls():
        return rng.choice(favourites) if rng.random() < 0.8 else rng.choice(sorted(CLASSES))

    def make(c):
        r = rng.random()
        if r < 0.12:
            n = rng.choice(sorted(NUMBERED))
            return ['number', c, n, value(rng, NUMBERED[n]) if rng.random() < 0.6 or n not in MODAL_BY_DEFAULT else None]
        n = cls()
        word = parse_word(CLASSES[n])
        letters = sorted(spec(word).params)
        p = some(rng, letters, rng.choice([0.3, 0.6]))
        if r < 0.5:
            return ['make', c, n, p]
        if r < 0.75:
            order = sorted(p)
            rng.shuffle(order)
            return ['words', c, n, [[l, p[l]] for l in order], rng.random() < 0.15]
        return ['text', c, n, p, rng.random() < 0.3]
    ops = [make(n) + [None] for n in names[:rng.randint(2, len(names))]]
    total = rng.randint(24, 60 if tier == 'quick' else 120)
    while len(ops) < total:
        (p, q) = (rng.choice(names), rng.choice(names))
        letter = rng.choice('XYZR' if rng.random() < 0.6 else 'IJKPLQF' if rng.random() < 0.7 else LETTERS)
        c = rng.random()
        if c < 0.10:
            ops.append(make(p))
        elif c < 0.28:
            ops.append(['set', p, letter, value(rng, letter), rng.randrange(4)])
        elif c < 0.34:
            ops.append(['add', p, letter, value(rng, letter)])
        elif c < 0.39:
            ops.append(['remove', p, letter])
        elif c < 0.40:
            ops.append(['reword', p, rng.randrange(4), value(rng, 'L')])
            if rng.random() < 0.3:
                ops[-1].append(None)
                n = rng.choice(sorted(MODAL_BY_DEFAULT))
                ops[-1:] = [['number', p, n, None, None], ops[-1], ['number', q, n, None]]
        elif c < 0.43:
            ops.append(['bad', p, letter, rng.randrange(4)])
        elif c < 0.49:
            ops.append(['copy', p, q])
        elif c < 0.54:
            ops.append(['modal', p, q])
        elif c < 0.62:
            ops.append(['compare', p, q])
        elif c < 0.66:
            ops.append(['sort', rng.sample(names, len(names)), cls(), rng.random() < 0.5])
        elif c < 0.72:
            ops.append(['read', p, rng.randrange(4), sorted(rng.sample('XYZIJR', 3))])
        elif c < 0.82:
            ops.append(['execute', p, rng.random() < 0.5])
        elif c < 0.90:
            text = g.line()
            if rng.random() < 0.15:
                (text, _) = history.faults.damage(rng, text, False)
            ops.append(['line', 'l%d' % rng.randrange(2), text, [rng.choice(names) for _ in range(3)]])
        elif c < 0.92 and rng.random() < 0.7:
            # lines made or changed by hand
            l = 'l%d' % rng.randrange(2)
            ops.append(rng.choice([['build', l, [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))], rng.choice([None, None, 'text'])],
                                   ['join', l, p], ['part', l, rng.randrange(3)]]))
        elif c < 0.94:
            ops.append(['left', 'l%d' % rng.randrange(2), rng.randrange(3), rng.randrange(-9, 9)])
        elif c < 0.965:
            ops.append(['clean', 'l%d' % rng.randrange(2)])
        else:
            (l, v) = (letter, value(rng, letter))
            (l2, v2) = rng.choice([(l, v), (l, value(rng, l)), (rng.choice('XYZGM'), 1)])
            ops.append(['word', l, v, l2, v2, rng.randrange(6)])
        ops[-1].append(strike(rng))
    return {'ops': ops}


def said(w):
    """(letter, value); tools are numbers which pygcode keeps as text"""
    return (w.letter, int(w.value) if w.letter == 'T' else w.value)


def parse_word(text):
    return (text[0], float(text[1:]))


def fmt(letter, v):
    if letter == 'O':
        return 'O' + v
    return '%s%d' % (letter, v) if letter in INTS else ('%s%g' % (letter, v) if letter in 'GM' else '%s%s' % (letter, ('%.20f' % v).rstrip('0').rstrip('.')))


def shows(code, e):
    """does what was read from a text agree with the entry, to three decimals?"""
    near = lambda a, b: abs(a - b) <= 0.0005 + 1e-9 * max(1.0, abs(a))
    return code.word[0] == e.word[0] and near(code.word[1], e.word[1]) and sorted(code.params) == sorted(e.params) and \
        all(near(v, e.params[l]) for (l, v) in code.params.items())


def exact(e):
    return all(round(v, 3) == v for v in [e.word[1]] + list(e.params.values()))


class Entry(object):
    """a command of the pool, and what it must be"""
    def __init__(self, real, word, params):
        self.real = real
        self.word = word
        self.params = dict(params)
        self.used = False

    @property
    def spec(self):
        return spec(self.word)

    def key(self):
        return (self.word, tuple(sorted(self.params.items())))

    def text(self):
        return ' '.join([fmt(*self.word)] + [fmt(l, v) for (l, v) in sorted(self.params.items())])


class World(object):
    def __init__(self, ctx):
        from pygcode import gcodes, words, line, block, exceptions
        self.gcodes = gcodes
        self.Word = words.Word
        self.words = words
        self.Line = line.Line
        self.Block = block.Block
        self.errors = exceptions
        self.ctx = ctx
        self.pool = {}
        self.lines = {}         # name: [Line, entries, parameters left, comment, macro]
        self.real = history.machine_class('XYZ')()
        self.ref = model.Machine('XYZ')
        self.n = 0

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    # ---- comparing
    @observe.observing
    def look(self, g):
        """(word, parameters), when all views of it agree"""
        word = said(g.word)
        params = {}
        for (l, w) in g.params.items():
            if w.letter != l:
                raise observe.Odd('parameter %s is kept as %s' % (w, l))
            params[l] = said(w)[1]
        return (word, params)

    def differs(self, e):
        g = e.real
        (word, params) = self.look(g)
        if word != e.word:
            return 'its word is %s%s instead of %s%s' % (word + e.word)
        if params != e.params:
            return 'its parameters are %s instead of %s' % (params, e.params)
        for l in sorted(e.spec.params):
            v = getattr(g, l)
            if v is not None and l == 'T':
                v = int(v)
            if v != e.params.get(l):
                return '%s is %r instead of %r' % (l, v, e.params.get(l))
        if e.word[0] == 'N' and g.number != e.word[1]:
            return 'its number is %r instead of %r' % (g.number, e.word[1])
        text = str(g)
        if text != str(g):
            return 'its text is different each time'
        try:
            codes = model.parse(text)
        except model.Refused as x:
            return 'its text is %r: %s' % (text, x)
        if codes.left or len(codes.codes) != 1 or not shows(codes.codes[0], e):
            return 'its text is %r instead of %r' % (text, e.text())
        return None

    def compare(self, what):
        for k in sorted(self.pool):
            d = self.differs(self.pool[k])
            if d:
                self.fail('views', 'after %s: command %s (%s): %s' % (what, k, self.pool[k].text(), d))
        for k in sorted(self.lines):
            self.line_compare(k, what)

    @observe.observing
    def line_view(self, x):
        return (str(x), len(x.block), [self.look(g) for g in x.gcodes], [self.look(g) for g in x.block.gcodes],
                [said(w) for w in x.block.modal_params])

    def line_compare(self, k, what):
        (x, entries, left, comment, macro) = self.lines[k]
        (text, n, codes, codes2, params) = self.line_view(x)
        want = [(e.word, e.params) for e in entries]
        if codes != want or codes2 != want or params != left or n != len(entries) + bool(left):
            self.fail('line', 'after %s: line %s has %s, %s (%d) instead of %s, %s' % (what, k, codes, params, n, want, left))
        try:
            if not entries and not left:
                text = text.lstrip()
            (plain, c, _, m) = model.split_line(text)
            words = model.scan(plain)
        except (model.Refused, model.Unsure) as e:
            self.fail('line', 'after %s: line %s reads %r: %s' % (what, k, text, e))
        # (a parameter that was edited may belong to another command once it is written)
        if sorted(self.flat([(e.word, e.params) for e in entries], left)) != sorted(self.flat([], words)):
            self.fail('line', 'after %s: line %s reads %r instead of %s %s' % (what, k, text, [e.text() for e in entries], left))
        if (c or '') != (comment or '') or (m or '').strip() != (macro or '').strip():
            self.fail('line', 'after %s: line %s reads %r, with comment %r, macro %r' % (what, k, text, comment, macro))

    def flat(self, codes, left):
        words = list(left)
        for (w, p) in codes:
            words += [w] + list(p.items())
        return [(l, v if l == 'O' else ('%.3f' % v).replace('-0.000', '0.000')) for (l, v) in words]

    # ---- doing
    def attempt(self, func, struck):
        if struck is None:
            return (func(), False)
        (fraction, kind, opcodes) = struck
        (abandoned, hit, result) = interrupt.strike(func, fraction, kind, opcodes, self.ctx)
        if abandoned:
            self.ctx.probe('abandoned')
        return (result, abandoned)

    def refused(self, func, errors, what):
        try:
            func()
        except errors:
            self.ctx.fault('refused')
            self.ctx.probe('refused')
            return
        self.fail('accepted', '%s was not refused' % what)

    def keep(self, name, real, word, params):
        for (k, e) in self.pool.items():
            if e.real is real:
                self.fail('shared', 'the result is the same object as command %s' % k)
        for (k, x) in self.lines.items():
            if any(e.real is real for e in x[1]):
                self.fail('shared', 'the result is the same object as one of line %s' % k)
        self.pool[name] = Entry(real, word, params)

    def cls(self, name):
        return getattr(self.gcodes, name)

    def given(self, word, params):
        return 'of %s with %s' % (fmt(*word), params)

    # ---- making
    def op_make(self, c, name, p, struck):
        word = parse_word(CLASSES[name])
        (g, abandoned) = self.attempt(lambda: self.cls(name)(**p), struck)
        if not abandoned:
            self.keep(c, g, word, p)
            self.ctx.state('make', name)

    def op_words(self, c, name, p, twice, struck):
        word = parse_word(CLASSES[name])
        W = self.Word
        ws = [W(*word)] + [W(l, v) for (l, v) in p]
        if twice and p:
            ws.append(W(p[0][0], 3))
            self.refused(lambda: self.cls(name)(*ws), self.errors.GCodeParameterError, 'a parameter given twice')
            return
        (g, abandoned) = self.attempt(lambda: self.cls(name)(*ws), struck)
        if not abandoned:
            self.keep(c, g, word, dict(p))
            self.ctx.state('words', name)

    def op_number(self, c, name, v, struck):
        letter = NUMBERED[name]
        if v is None:
            (g, abandoned) = self.attempt(lambda: self.cls(name)(), struck)
        else:
            (g, abandoned) = self.attempt(lambda: self.cls(name)(v), struck)
        if not abandoned:
            self.keep(c, g, (letter, v or 0), {})
            self.ctx.state('number', name, v is None)

    def op_text(self, c, name, p, lower, struck):
        word = parse_word(CLASSES[name])
        text = Entry(None, word, p).text()
        if lower:
            text = text.lower()
        (gs, abandoned) = self.attempt(lambda: self.gcodes.text2gcodes(text), struck)
        if not abandoned:
            if len(gs) != 1:
                self.fail('text', '%r is read as %s' % (text, gs))
            self.keep(c, gs[0], word, p)
            if type(gs[0]) is not self.cls(name):
                self.fail('text', '%r is read as a %s' % (text, type(gs[0]).__name__))
            self.ctx.state('text', name)

    def op_line(self, name, text, into, struck):
        try:
            want = model.parse(text)
        except model.Unsure:
            return
        except model.Refused:
            self.refused(lambda: self.Line(text), Exception, 'line %r' % text)
            return
        (x, abandoned) = self.attempt(lambda: self.Line(text), struck)
        if abandoned:
            return
        (plain, comment, _, macro) = model.split_line(text)
        words = model.scan(plain)
        if any(l == 'O' for (l, v) in words):
            return
        self.line_read(x, text, words, want)
        entries = [Entry(g, c.word, c.params) for (g, c) in zip(x.block.gcodes, want.codes)]
        if len(entries) != len(want.codes):
            self.fail('line', '%r is read as %s' % (text, x.block.gcodes))
        self.lines[name] = [x, entries, list(want.left), comment, macro]
        for (c, e) in zip(into, entries):
            self.pool[c] = e        # (clients edit what they find in lines)
        self.ctx.state('line', len(entries), bool(want.left), bool(comment), bool(macro))

    @observe.observing
    def line_read(self, x, text, words, want):
        """the views of a line as it was read"""
        b = x.block
        if x.text != text:
            self.fail('line', 'the text of %r is %r' % (text, x.text))
        got = [said(w) for w in b.words]
        if got != words:
            self.fail('line', 'the words of %r are %s' % (text, got))
        if bool(b) != bool(words):
            self.fail('line', 'the block of %r counts as %s' % (text, bool(b)))
        if words and model.scan(b.text) != words:
            self.fail('line', 'the text of the block of %r is %r' % (text, b.text))
        for l in LETTERS:
            w = getattr(b, l)
            first = [v for (m, v) in words if m == l]
            if (w is None) != (not first) or (first and said(w) != (l, first[0])):
                self.fail('line', '%s of %r is %r' % (l, text, w))
        self.refused(lambda: b.nonsense, AttributeError, "a block's attribute 'nonsense'")
        once = [l for l in LETTERS if len([1 for (m, v) in words if m == l]) == 1]
        d = self.words.words2dict(b.words)
        few = self.words.words2dict(b.words, limit_word_letters='XYZF')
        vals = dict(words)
        if sorted(d) != sorted(vals) or any(said(self.Word(l, d[l]))[1] != vals[l] for l in once) or sorted(few) != sorted(l for l in vals if l in 'XYZF') \
                or any(few[l] != d[l] for l in few):
            self.fail('line', 'the words of %r as dict: %s, %s' % (text, d, few))

    # ---- editing
    def edit(self, e, letter, v, func, struck):
        old = dict(e.params)
        (_, abandoned) = self.attempt(func, struck)
        if e.used:
            self.ctx.probe('edited')
            self.ctx.fault('edit')
        if abandoned:
            params = self.look(e.real)[1]
            if params.get(letter) == old.get(letter):
                return
        if v is None:
            e.params.pop(letter, None)
        else:
            e.params[letter] = v

    def op_set(self, p, letter, v, how, struck):
        e = self.pool.get(p)
        if e is None or letter not in e.spec.params:
            return
        g = e.real
        if how == 0 and letter in e.params:
            w = g.params[letter]
            self.edit(e, letter, v, lambda: setattr(w, 'value', v), struck)
        else:
            x = v if how < 3 else str(v)
            self.edit(e, letter, v, lambda: setattr(g, letter, x), struck)
        self.ctx.state('set', e.word, letter, how)

    def op_add(self, p, letter, v, struck):
        e = self.pool.get(p)
        if e is None:
            return
        w = self.Word(letter, v)
        if letter in e.params or letter not in e.spec.params:
            self.refused(lambda: e.real.add_parameter(w), self.errors.GCodeParameterError, 'parameter %s for %s' % (w, e.text()))
        else:
            self.edit(e, letter, v, lambda: e.real.add_parameter(w), struck)
        self.ctx.state('add', e.word, letter in e.params)

    def op_remove(self, p, letter, struck):
        e = self.pool.get(p)
        if e is not None and letter in e.params:
            self.edit(e, letter, None, lambda: e.real.params.pop(letter), None)

    def op_bad(self, p, letter, how, struck):
        e = self.pool.get(p)
        if e is None:
            return
        g = e.real
        if letter in e.spec.params and how < 2 and letter not in 'OT':
            self.refused(lambda: setattr(g, letter, 'much' if how else ''), ValueError, '%s = %r' % (letter, 'much'))
        elif how == 2 and letter not in 'OT' and letter in e.params:
            self.refused(lambda: setattr(g.params[letter], 'value', 'x'), ValueError, 'value of %s' % letter)
        elif letter not in e.spec.params:
            self.refused(lambda: getattr(g, letter), AttributeError, 'reading %s of %s' % (letter, e.text()))
            if e.word[0] not in 'NO':
                self.refused(lambda: type(g)(**{letter: 1}), self.errors.GCodeParameterError, '%s made with %s' % (type(g).__name__, letter))

    def op_reword(self, p, i, v, struck):
        """another number for the same kind of command"""
        e = self.pool.get(p)
        if e is None or e.word[0] == 'O':
            return
        if e.word[0] in 'GM':
            same = [w for w in FAMILIES if e.word in w]
            if not same:
                return
            v = same[0][i % len(same[0])][1]
        (_, abandoned) = self.attempt(lambda: setattr(e.real.word, 'value', v), struck)
        if not abandoned or self.look(e.real)[0] != e.word:
            e.word = (e.word[0], v)
        if e.used:
            self.ctx.probe('edited')
        self.ctx.state('reword', e.word)

    # ---- copies
    def op_copy(self, p, q, struck):
        e = self.pool.get(q)
        if e is None:
            return
        (g, abandoned) = self.attempt(lambda: deepcopy(e.real), struck)
        if not abandoned:
            shallow = copy(e.real)
            for x in (g, shallow):
                if not (x == e.real) or x != e.real:
                    self.fail('equality', 'a copy of %s does not equal it' % e.text())
            e.used = True
            self.keep(p, g, e.word, e.params)

    def op_modal(self, p, q, struck):
        e = self.pool.get(q)
        if e is None:
            return
        (g, abandoned) = self.attempt(lambda: e.real.modal_copy(), struck)
        if not abandoned:
            e.used = True
            sticky = e.spec.sticky
            self.keep(p, g, e.word, dict((l, v) for (l, v) in e.params.items() if l in sticky))
            self.ctx.state('modal', e.word)

    # ---- reading
    def op_compare(self, p, q, struck):
        if p not in self.pool or q not in self.pool:
            return
        (a, b) = (self.pool[p], self.pool[q])
        (x, y) = (a.real, b.real)
        (got, abandoned) = self.attempt(lambda: x == y, struck)
        if abandoned:
            return
        a.used = b.used = True
        want = a.key() == b.key()
        if want and str(x) != str(y):
            return  # (tools T2 and T02)
        if bool(got) != want or bool(x != y) == want:
            self.fail('equality', '%s == %s: %s, !=: %s' % (a.text(), b.text(), got, x != y))
        floats = sorted(l for l in a.params if l not in INTS)
        if floats:
            # a little apart
            near = deepcopy(x)
            l = floats[self.n % len(floats)]
            setattr(near, l, a.params[l] + 0.0001)
            if near == x or not (near != x):
                self.fail('equality', '%s still equals it with %s changed to %r' % (a.text(), l, getattr(near, l)))
        (m, n) = (a.spec.order, b.spec.order)
        if (x < y, x <= y, x > y, x >= y) != (m < n, m <= n, m > n, m >= n):
            self.fail('order', '%s and %s: <, <=, >, >= are %s' % (a.text(), b.text(), (x < y, x <= y, x > y, x >= y)))
        self.ctx.state('compare', want, m < n, m > n)

    def op_sort(self, names, splitter, by_order, struck):
        es = [self.pool[k] for k in names if k in self.pool]
        want = sorted(es, key=lambda e: e.spec.order) if by_order else es
        gs = [e.real for e in es]
        given = list(gs)
        cls = self.cls(splitter)
        if by_order:
            (got, abandoned) = self.attempt(lambda: sorted(gs), struck)
            if not abandoned and [id(g) for g in got] != [id(e.real) for e in want]:
                self.fail('order', '%s sorted: %s' % ([e.text() for e in es], got))
            (got, abandoned) = self.attempt(lambda: self.gcodes.split_gcodes(gs, cls), struck)
        else:
            (got, abandoned) = self.attempt(lambda: self.gcodes.split_gcodes(gs, cls, sort_list=False), struck)
        if abandoned:
            return
        word = parse_word(CLASSES[splitter])
        at = [i for (i, e) in enumerate(want) if isinstance(e.real, cls)]
        k = at[0] if at else len(want)
        parts = [want[:k], want[k:k + 1], want[k + 1:]]
        if [[id(g) for g in x] for x in got] != [[id(e.real) for e in x] for x in parts]:
            self.fail('split', '%s split at %s: %s' % ([e.text() for e in es], fmt(*word), got))
        if [id(g) for g in gs] != [id(g) for g in given]:
            self.fail('split', 'the list of commands given was changed')
        for e in es:
            e.used = True
        self.ctx.state('sort', len(es), bool(at), by_order)

    def op_read(self, p, how, letters, struck):
        e = self.pool.get(p)
        if e is None:
            return
        g = e.real
        e.used = True
        if how < 3:
            some = letters if how else None
            (d, abandoned) = self.attempt(lambda: g.get_param_dict(letters=some, lc=how == 2), struck)
            if abandoned:
                return
            want = dict((l.lower() if how == 2 else l, v) for (l, v) in e.params.items() if not how or l in letters)
            if dict((l, int(v) if l in 'Tt' else v) for (l, v) in d.items()) != want:
                self.fail('dict', 'parameters of %s as dict: %s' % (e.text(), d))
            d.clear()
        elif exact(e):
            again = self.gcodes.text2gcodes(str(g))
            if len(again) != 1 or not again[0] == g or again[0] != g or type(again[0]) is not type(g):
                self.fail('text', '%s, written %r, is read as %s' % (e.text(), str(g), again))
        self.ctx.state('read', how)

    def op_execute(self, p, as_list, struck):
        e = self.pool.get(p)
        if e is None:
            return
        e.used = True
        verdict = history.model_deliver(self.ref, e.text())
        if verdict == 'unsure':
            return
        try:
            if as_list:
                self.real.process_gcodes(*[e.real])
            else:
                e.real.process(self.real)
            ok = True
        except Exception as x:
            if not history.is_documented(x):
                raise
            ok = False
        if ok != (verdict == 'ok'):
            self.fail('executed', '%s was %s' % (e.text(), 'executed' if ok else 'refused'))
        d = observe.diff(observe.state(self.real), observe.model_state(self.ref))
        if d:
            self.fail('executed', '%s: %s' % (e.text(), '; '.join(d)))
        self.ctx.state('execute', e.word, verdict)

    # ---- parameters of a line which belong to no command
    def op_left(self, name, i, v, struck):
        if name not in self.lines:
            return
        (x, entries, left, comment, macro) = self.lines[name]
        if i < len(left) and left[i][0] not in INTS + 'GMO':
            x.block.modal_params[i].value = v
            left[i] = (left[i][0], float(v))

    def op_clean(self, name, struck):
        """remove those parameters of a line which the machine's motion does not take"""
        if name not in self.lines:
            return
        (x, entries, left, comment, macro) = self.lines[name]
        letters = [l for (l, v) in left]
        if len(set(letters)) != len(letters):
            return
        motion = self.ref.mode['motion'] and self.ref.mode['motion'][0]
        words = [said(w) for w in x.block.words]
        self.real.clean_block(x.block)
        if motion is None or any(e.spec.group == 'motion' for e in entries):
            del left[:]
        else:
            left[:] = [(l, v) for (l, v) in left if l in spec(motion).params]
        if [said(w) for w in x.block.words] != words:
            self.fail('line', 'cleaning line %s changed the words it was read from, %s, to %s' % (name, words, x.block.words))
        self.ctx.probe('cleaned')
        self.ctx.state('clean', len(letters), len(left), motion is None)

    # ---- lines put together and changed by hand
    def op_build(self, name, names, comment, struck):
        names = [n for n in names if n in self.pool]
        (x, abandoned) = self.attempt(lambda: self.Line(), struck)
        if abandoned or not names:
            return
        entries = []
        for n in names:
            if not any(e is self.pool[n] for e in entries):
                entries.append(self.pool[n])
        x.block = self.Block()
        x.block.gcodes.extend(e.real for e in entries)
        if comment:
            x.comment = self.Line('(%s)' % comment).comment
        if x.text != str(x) or x.block.text != str(x.block):
            self.fail('line', 'line made of %s: text %r, %r' % ([e.text() for e in entries], x.text, x.block.text))
        self.lines[name] = [x, entries, [], comment, None]
        self.ctx.probe('line-built')
        self.ctx.state('build', len(entries), bool(comment))

    def op_join(self, name, p, struck):
        if name in self.lines and p in self.pool and not any(e is self.pool[p] for e in self.lines[name][1]):
            (x, entries, left, comment, macro) = self.lines[name]
            x.block.gcodes.append(self.pool[p].real)
            entries.append(self.pool[p])
            self.ctx.probe('line-changed')

    def op_part(self, name, i, struck):
        if name in self.lines and i < len(self.lines[name][1]):
            (x, entries, left, comment, macro) = self.lines[name]
            del x.block.gcodes[i]
            del entries[i]
            self.ctx.probe('line-changed')

    # ---- words
    def op_word(self, l, v, l2, v2, how, struck):
        W = self.Word
        if l in 'GM':
            v = abs(v) // 1
        if l2 in 'GM':
            v2 = abs(v2) // 1
        if l == 'O':
            (v, v2) = (str(v), str(v2))
        text = fmt(l, v)
        (w, abandoned) = self.attempt(lambda: [W(l, v), W(l.lower(), v), W(text), W(text.lower()), self.words.str2word(text)][how % 5], struck)
        if abandoned:
            return
        (a, b) = ((l, v), (l2, v2))
        if said(w) != a:
            self.fail('word', '%s is %s, %r' % (text, w.letter, w.value))
        x = W(l2, v2)
        if (w == x) != (a == b) or (w != x) == (a == b) or (a == b and hash(w) != hash(x)):
            self.fail('equality', '%s and %s: ==: %s, !=: %s' % (w, x, w == x, w != x))
        if (w < x, w <= x, w > x, w >= x) != (a < b, a <= b, a > b, a >= b):
            self.fail('order', '%s and %s: <, <=, >, >= are %s' % (w, x, (w < x, w <= x, w > x, w >= x)))
        if l != 'O':
            if not w == text or w == fmt(l, v + 1) or w != text:
                self.fail('equality', 'the word %s and the text %r' % (w, text))
            read = model.scan(str(w))
            if len(read) != 1 or read[0][0] != l or abs(read[0][1] - v) > 0.0005 + 1e-9 * abs(v) or w.value_str != str(w)[1:]:
                self.fail('word', '%s is written %r, value %r' % (text, str(w), w.value_str))
            if l != 'T':
                self.refused(lambda: setattr(w, 'value', 'x'), ValueError, 'value x for %s' % w)
                self.refused(lambda: W(l, 'x'), ValueError, 'word %sx' % l)
        if said(w) != a:
            self.fail('word', '%s is %s, %r' % (text, w.letter, w.value))
        if l == l2:
            (_, abandoned) = self.attempt(lambda: setattr(w, 'value', v2), struck)
            if said(w)[1] not in ((v, v2) if abandoned else (v2,)):
                self.fail('word', '%s set to %r is %r' % (text, v2, w.value))
        self.ctx.state('word', l, how, a == b)

    def run(self, scenario):
        for op in scenario['ops']:
            self.n += 1
            self.ctx.step()
            try:
                getattr(self, 'op_' + op[0])(*op[1:])
            except observe.Odd as e:
                self.fail('odd-object', str(e))
            except Violation:
                raise
            except Exception as e:
                self.fail('exception', '%s: %s: %s' % (op, type(e).__name__, e))
            self.compare(op)
            self.ctx.log(self.n, op[0], [(k, self.pool[k].text()) for k in sorted(self.pool)])


def execute(scenario, ctx):
    World(ctx).run(scenario)
    ctx.nontrivial = bool(ctx.probes['edited']) and bool(ctx.probes['refused'] or ctx.probes['abandoned'])
