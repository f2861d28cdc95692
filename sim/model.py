"""
Reference model: an independent reading of g-code, used as the oracle and as the
simulated controller.  It shares no code with pygcode.

It is deliberately trivial: a table of codes, a word scanner, a rule saying which
command each parameter belongs to, and a machine made of plain dicts.
"""
import re

AX = 'XYZABCUVW'


class Refused(Exception):
    """The model refuses this line"""


class Unsure(Exception):
    """The input is outside what the model takes a position on"""


# ---------------------------------------------------------------- code table
class Spec(object):
    __slots__ = ('group', 'params', 'order', 'sticky')

    def __init__(self, group, order, params='', sticky=''):
        self.group = group
        self.order = order
        self.params = frozenset(params)
        self.sticky = frozenset(sticky)


CODES = {}


def _add(codes, *args, **kw):
    for code in codes.split():
        CODES[(code[0], float(code[1:]))] = Spec(*args, **kw)


_add('G0 G1', 'motion', 242, AX)
_add('G2 G3', 'motion', 242, AX + 'IJKRP')
_add('G4', None, 140, 'P')
_add('G5', 'motion', 242, AX + 'IJPQ')
_add('G5.1', 'motion', 242, AX + 'IJ')
_add('G5.2 G5.3', 'motion', 242, AX + 'PL')
_add('G38.2 G38.3 G38.4 G38.5', 'motion', 242, AX)
_add('G33 G33.1', 'motion', 242, AX + 'K')
_add('G80', None, 241, AX)
_add('G81 G82 G85 G89', 'motion', 242, 'XYZUVWRLP', 'XYZUVWRP')
_add('G83 G73', 'motion', 242, 'XYZUVWRLQ', 'XYZUVWRQ')
_add('G76', 'motion', 242, 'XYZUVWPIJRKQHLE')
_add('G90 G91', 'distance', 210)
_add('G90.1 G91.1', 'arc_ijk_distance', 210)
_add('G7 G8', 'lathe_diameter', 210)
_add('G93 G94 G95', 'feed_rate_mode', 30)
_add('M3 M4 M5', 'spindle', 90)
_add('M19', None, 90)
_add('G96', 'spindle_speed_mode', 90, 'DS', 'DS')
_add('G97', 'spindle_speed_mode', 90, 'D', 'D')
_add('M7 M8 M9', 'coolant', 110)
_add('G43 G43.2', 'tool_length_offset', 180, 'H', 'H')
_add('G43.1 G49', 'tool_length_offset', 180)
_add('M0 M1 M2 M30 M60', 'stopping', 250)
_add('G20 G21', 'units', 160)
_add('G17 G18 G19 G17.1 G18.1 G19.1', 'plane_selection', 150)
_add('G40', 'cutter_diameter_comp', 170)
_add('G41 G42', 'cutter_diameter_comp', 170, 'D', 'D')
_add('G41.1 G42.1', 'cutter_diameter_comp', 170, 'DL', 'DL')
_add('G61 G61.1', 'control_mode', 200)
_add('G64', 'control_mode', 200, 'PQ', 'PQ')
_add('G98 G99', 'canned_cycles_return', 220)
_add('M48 M49', 'override_switches', 120)
_add('M50 M51 M52 M53', None, 120, 'P')
_add('G54 G55 G56 G57 G58 G59 G59.1 G59.2 G59.3', 'coordinate_system', 190)
_add('M62 M63 M64 M65', None, 70, 'P')
_add('M66', None, 70, 'PELQ')
_add('M67 M68', None, 70, 'T')
_add('M6', None, 80, 'T')
_add('M61', None, 80, 'Q')
_add('G10', None, 230, 'LPQRABCXYZ')
_add('G28 G30 G28.1 G30.1', None, 230)
_add('G53', None, 240)
_add('G92 G92.1 G92.2 G92.3', None, 230)

_LETTER_SPECS = {
    'F': Spec('feed_rate', 40),
    'S': Spec('spindle_speed', 50),
    'T': Spec('tool', 60),
    'N': Spec(None, 0),
    'O': Spec(None, 1),
}

GROUPS = sorted(
    set(s.group for s in list(CODES.values()) + list(_LETTER_SPECS.values()) if s.group)
)

COORD_SYS = {54.0: 1, 55.0: 2, 56.0: 3, 57.0: 4, 58.0: 5, 59.0: 6, 59.1: 7, 59.2: 8, 59.3: 9}
CANNED = (73.0, 76.0, 81.0, 82.0, 83.0, 85.0, 89.0)
# groups in the order of the machine's modal group numbers
PLANE_NORMAL = {17.0: 'Z', 18.0: 'Y', 19.0: 'X'}
PLANE_AXES = {17.0: 'XY', 18.0: 'ZX', 19.0: 'YZ'}


def spec_of(word):
    (letter, value) = word
    if letter in 'GM':
        return CODES.get((letter, value))
    return _LETTER_SPECS.get(letter)


# ---------------------------------------------------------------- words
# A word is a tuple (letter, value); value is a float, an int for T, N and L,
# or a text for O.
_FLOAT = re.compile(r'\s*(-?(?:\d+\.?\d*|\.\d+))')
_POSINT = re.compile(r'\s*(\d+)')
_CODE = re.compile(r'\s*(\d+(?:\.\d)?)')


def scan(text):
    """Words of a block's text; raises Refused for illegible text"""
    if any('\x1c' <= c <= '\x1f' for c in text):
        raise Unsure("separators some take for white space, and some don't")
    if len(text) > 4000:
        raise Unsure("long enough for numbers python doesn't convert")
    text = ' '.join(text.split())
    if any(ord(c) > 126 for c in text):
        raise Unsure("non-ascii text")
    words = []
    i = 0
    n = len(text)
    rest = 0
    while i < n:
        c = text[i].upper()
        if not ('A' <= c <= 'Z'):
            i += 1
            continue
        i += 1
        if c == 'O':
            if i >= n:
                raise Refused("O without a name")
            words.append((c, text[i:]))
            i = n
        else:
            regex = _POSINT if c in 'LNT' else (_CODE if c in 'GM' else _FLOAT)
            m = regex.match(text, i)
            if not m:
                raise Refused("word %s has no value" % c)
            v = m.group(1)
            if c not in 'LNT' and float(v) in (float('inf'), -float('inf')):
                raise Refused("word %s has no finite value" % c)
            words.append((c, int(v) if c in 'LNT' else float(v)))
            i = m.end()
        rest = i
    if text[rest:].strip():
        raise Refused("remainder %r" % text[rest:])
    return words


def split_line(text):
    """(block text, comment text or None, comment kind, macro or None)"""
    text = text.rstrip('\n')
    macro = None
    if '%' in text:
        k = text.index('%')
        macro = text[k:]
        text = text[:k]
    if ';' in text:
        k = text.index(';')
        return (text[:k].rstrip(), text[k + 1:].strip(), ';', macro)
    comments = []
    block = ''
    i = 0
    while True:
        a = text.find('(', i)
        b = text.find(')', a) if a >= 0 else -1
        if a < 0 or b < 0:
            block += text[i:]
            break
        block += text[i:a]
        comments.append(text[a + 1:b])
        i = b + 1
    if comments:
        return (block, '. '.join(comments), '(', macro)
    return (block, None, None, macro)


class Code(object):
    """A command with its parameters"""
    __slots__ = ('word', 'params', 'spec')

    def __init__(self, word, params, spec):
        self.word = word
        self.params = params
        self.spec = spec

    def key(self):
        return (self.word, tuple(sorted(self.params.items())))

    def __repr__(self):
        return '%s%s %s' % (self.word[0], self.word[1], sorted(self.params.items()))


def group_words(words):
    """
    (codes, words left over); a parameter belongs to the last command before it
    that takes its letter
    """
    cand = [spec_of(w) for w in words]
    owner = [None] * len(words)
    for i in range(len(words)):
        if cand[i] is None:
            continue
        for j in range(i + 1, len(words)):
            if words[j][0] in cand[i].params:
                owner[j] = i
                cand[j] = None
    codes = {}
    left = []
    for i in range(len(words)):
        if cand[i] is not None:
            codes[i] = Code(words[i], {}, cand[i])
    for i in range(len(words)):
        if cand[i] is not None:
            continue
        if owner[i] is None:
            left.append(words[i])
        else:
            (letter, value) = words[i]
            c = codes[owner[i]]
            if letter in c.params:
                raise Refused("%s defined twice" % letter)
            c.params[letter] = value
    return ([codes[i] for i in sorted(codes)], left)


class Block(object):
    def __init__(self, codes, left):
        self.codes = codes
        self.left = left


def parse(text, verify=True):
    """Line of text -> Block"""
    block_text = split_line(text)[0]
    (codes, left) = group_words(scan(block_text))
    if verify:
        seen = set()
        groups = set()
        for c in codes:
            if c.word in seen:
                raise Refused("%r repeated" % (c.word,))
            seen.add(c.word)
            g = c.spec.group
            if g is not None:
                if g in groups:
                    raise Refused("two codes of group %s" % g)
                groups.add(g)
    return Block(codes, left)


# ---------------------------------------------------------------- machine
DEFAULT_MODE = ['G0', 'G17', 'G90', 'G91.1', 'G94', 'G21', 'G40', 'G49', 'G54', 'G61',
                'G97', 'M5', 'M9', 'F0', 'S0', 'T0']


class Machine(object):
    """Reference machine; a position is a dict of floats"""

    def __init__(self, axes='XYZ', default_mode=DEFAULT_MODE):
        self.axes = ''.join(a for a in AX if a in axes)
        self.mode = dict((g, None) for g in GROUPS)  # {group: (word, params)}
        self.cs = 1
        self.offsets = dict((i, dict((a, 0.0) for a in self.axes)) for i in range(1, 10))
        self.temp = dict((a, 0.0) for a in self.axes)
        for text in default_mode:
            for c in parse(text).codes:
                self._set_mode(c)
        self.abs = dict((a, 0.0) for a in self.axes)
        self.lo = dict(self.abs)
        self.hi = dict(self.abs)

    def clone(self):
        o = Machine.__new__(Machine)
        o.axes = self.axes
        o.mode = dict(self.mode)
        o.cs = self.cs
        o.offsets = dict((i, dict(d)) for (i, d) in self.offsets.items())
        o.temp = dict(self.temp)
        o.abs = dict(self.abs)
        o.lo = dict(self.lo)
        o.hi = dict(self.hi)
        return o

    # --- state
    def word(self, group):
        m = self.mode[group]
        return m[0][1] if m else None

    @property
    def incremental(self):
        return self.word('distance') == 91.0

    @property
    def plane(self):
        return self.word('plane_selection') or 17.0

    def offset(self, a):
        return self.offsets[self.cs][a] + self.temp[a]

    @property
    def work(self):
        return dict((a, self.abs[a] - self.offset(a)) for a in self.axes)

    def _set_mode(self, c):
        if c.spec.group is not None:
            self.mode[c.spec.group] = (
                c.word, dict((k, v) for (k, v) in c.params.items() if k in c.spec.sticky)
            )
        if self.mode['coordinate_system']:
            self.cs = COORD_SYS[self.mode['coordinate_system'][0][1]]

    def set_work(self, pos):
        self.abs = dict((a, pos[a] + self.offset(a)) for a in self.axes)
        self.touch()

    def touch(self):
        for a in self.axes:
            self.lo[a] = min(self.lo[a], self.abs[a])
            self.hi[a] = max(self.hi[a], self.abs[a])

    def _move(self, coords):
        pos = self.work
        for (a, v) in coords.items():
            pos[a] = (pos[a] + v) if self.incremental else v
        self.set_work(pos)

    # --- execution
    def resolve(self, block):
        """All codes of the block, in execution order"""
        codes = list(block.codes)
        if block.left:
            motion = self.mode['motion']
            if motion is None:
                raise Refused("no motion mode for parameters")
            (word, retained) = motion
            dropped = set(l for (l, v) in block.left)
            if word[0] == 'G' and word[1] in CANNED:
                # an axis of the plane that is left out doesn't move
                dropped |= set('XYZUVW') - set([PLANE_NORMAL.get(self.plane)])
            words = [word] + [(l, v) for (l, v) in retained.items() if l not in dropped] + list(block.left)
            (modal, left) = group_words(words)
            if left or len(modal) != 1:
                raise Refused("parameters not accepted by %r" % (word,))
            codes.append(modal[0])
        return sorted(codes, key=lambda c: c.spec.order)

    def execute(self, block, trace=None):
        codes = self.resolve(block)
        for c in codes:
            self.execute_code(c, trace)
        return codes

    def execute_text(self, text, trace=None):
        return self.execute(parse(text), trace)

    def execute_code(self, c, trace=None):
        self._set_mode(c)
        start = dict(self.abs)
        if c.word == ('G', 80.0):
            self.mode['motion'] = None
        elif c.spec.group == 'motion':
            coords = dict((a, v) for (a, v) in c.params.items() if a in self.axes)
            if c.word[1] in CANNED:
                normal = PLANE_NORMAL.get(self.plane)
                if normal is None:
                    raise Unsure("canned cycle in plane %r" % self.plane)
                coords.pop(normal, None)
                if self.word('canned_cycles_return') == 99.0 and c.params.get('R') is not None:
                    if normal in self.axes:
                        coords[normal] = c.params['R']
                n = c.params.get('L')
                n = 1 if (n is None or n <= 0) else int(n)
                if n > 5000:
                    raise Unsure("too many repeats")
                for i in range(n):
                    self._move(coords)
                    if trace is not None:
                        trace.append(('step', dict(self.abs)))
                    if self.incremental:
                        coords.pop(normal, None)
            else:
                self._move(coords)
        if trace is not None:
            trace.append(('code', c, start, dict(self.abs)))

    # --- comparison
    def modes(self):
        """{group: (letter, value, ((param, value), ...))}"""
        out = {}
        for (g, m) in self.mode.items():
            out[g] = None if m is None else mode_key(m[0], m[1])
        return out


def num(v):
    """numbers are compared as written: to 6 decimals"""
    try:
        v = round(float(v), 6)
    except OverflowError:
        return float("inf") if v > 0 else float("-inf")
    return 0.0 if v == 0 else v


def mode_key(word, params):
    (letter, value) = word
    return (letter, value if letter == 'O' else num(value),
            tuple(sorted((k, num(v)) for (k, v) in params.items())))


def close(a, b, tol=1e-6):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))


def pos_close(p, q, tol=1e-6):
    return set(p) == set(q) and all(close(p[k], q[k], tol) for k in p)
