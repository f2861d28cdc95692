"""Workload generator: programs a real controller would accept, in conventional word order"""
from . import model

# integer vectors of equal length: exact points of circles on a decimal grid
V65 = [(16, 63), (25, 60), (33, 56), (39, 52), (52, 39), (56, 33), (60, 25), (63, 16), (65, 0), (0, 65)]
V25 = [(7, 24), (15, 20), (20, 15), (24, 7), (25, 0), (0, 25)]
V5 = [(3, 4), (4, 3), (5, 0), (0, 5)]

ALL = ('arc', 'canned', 'plane', 'inc', 'arcabs', 'cs', 'modal', 'comment', 'macro', 'misc',
       'blank', 'nword', 'sloppy', 'dwell', 'retract', 'sticky', 'rare', 'big', 'multi')

MISC = ['M3', 'M4', 'M5', 'M7', 'M8', 'M9', 'M48', 'M49', 'G20', 'G21', 'G40', 'G49', 'G61', 'G61.1',
        'G64', 'G93', 'G94', 'G95', 'G97', 'M19', 'G7', 'G8', 'M0', 'M1', 'M60', 'G43.1']
STICKY = ['G43 H%d', 'G41 D%d', 'G42 D%d', 'G64 P0.%d', 'G64 P0.%d Q0.02', 'G96 D%d00', 'G96 D%d00 S30', 'G97 D%d',
          'G41.1 D%d L2']
RARE = ['M62 P%d', 'M63 P%d', 'M64 P%d', 'M65 P%d', 'M66 P%d L3 Q2', 'M67 T%d', 'M61 Q%d', 'M6 T%d', 'M6',
        'M50 P%d', 'M51 P%d', 'M52 P%d', 'M53 P%d', 'G28', 'G30', 'G28.1', 'G92', 'G92.1', 'G92.2', 'G92.3',
        'G53', 'G10 L2 P%d', 'G10 L20 P%d']


def fmt(v, rng=None):
    """number with up to 3 decimals, as text"""
    k = int(round(v * 1000))
    sign = '-' if k < 0 else ''
    k = abs(k)
    (i, f) = divmod(k, 1000)
    t = ('%03d' % f).rstrip('0')
    if rng is None or rng.random() < 0.7:
        return sign + (('%d.%s' % (i, t)) if t else '%d' % i)
    c = rng.randrange(5)
    if c == 0:
        return sign + '%d.%03d' % (i, f)
    if c == 1:
        return sign + ('%d.%s' % (i, t))
    if c == 2 and i == 0 and t:
        return sign + '.' + t
    if c == 3:
        return sign + '0' + (('%d.%s' % (i, t)) if t else '%d' % i)
    return sign + (('%d.%s' % (i, t)) if t else '%d' % i)


def wide(rng, lines):
    """the same, with so much white space that no buffer holds it"""
    per = rng.choice([3000, 6000, 12000, 70000]) // max(1, len(lines))
    return [' ' * rng.randint(0, 2 * per) + x for x in lines]


class Gen(object):
    def __init__(self, rng, feats=None, axes='XYZ', machine=None, small=False, fullcanned=False, zsafe=False):
        self.rng = rng
        self.feats = set(ALL if feats is None else feats)
        self.axes = axes
        self.m = machine if machine is not None else model.Machine(axes)
        self.lines = []
        self.small = small            # keep coordinates small
        self.fullcanned = fullcanned  # canned cycles always fully specified, and in the XY plane
        self.n = 0
        self.turns = 0  # how often arcs have several
        (self.cycles, self.returns, self.repeats) = (0.15, 0.06, 0.25)   # how often
        self.fine = 0   # how often numbers have more than 3 decimals
        self.no_modal = False         # retained parameters must not be reused
        self.styles = rng.choice([0.0, 0.1, 0.6]) if 'sloppy' in self.feats else 0.0

    def has(self, f, p=1.0):
        return f in self.feats and self.rng.random() < p

    # ---- numbers
    def coord(self, base=None):
        r = self.rng
        c = r.random()
        if c < 0.35:
            v = r.randint(-20, 20)
        elif c < 0.75:
            v = r.randint(-20000, 20000) / 1000.0
        elif c < 0.85:
            v = r.choice([0, 0.001, -0.001, 0.1, -0.5, 1, 10, -10])
        elif c < 0.95 or 'big' not in self.feats or self.small:
            v = r.randint(-1000, 1000) / 10.0
        else:
            v = r.choice([99999.999, -99999.999, 12345.678, 54321.5, -1000, 10000, 100000])
        return v

    def num(self, v):
        if self.fine and self.rng.random() < self.fine:
            v = round(self.rng.choice([0, 0, v]) + self.rng.choice([self.rng.randint(-499, 499), 5, -4, 100]) / 1e6, 6)
            return ('%.6f' % v).rstrip('0').rstrip('.')
        return fmt(v, self.rng if self.styles else None)

    # ---- text
    def code(self, text):
        """G1 in some spelling"""
        r = self.rng
        if r.random() < self.styles:
            (letter, v) = (text[0], text[1:])
            if r.random() < 0.4 and '.' not in v and len(v) < 2:
                v = '0' + v
            if r.random() < 0.3:
                letter = letter.lower()
            if r.random() < 0.15:
                v = ' ' + v
            return letter + v
        return text

    def join(self, words):
        r = self.rng
        out = []
        for w in words:
            if r.random() < self.styles and w[0] not in 'oO':
                if r.random() < 0.3:
                    w = w.lower()
                if r.random() < 0.1:
                    w = w[0] + ' ' + w[1:]
            out.append(w)
        if r.random() < self.styles * 0.7:
            seps = ['', ' ', '  ', '\t']
            t = out[0] if out else ''
            for w in out[1:]:
                t += r.choice(seps) + w
            return t
        return ' '.join(out)

    def decorate(self, text):
        r = self.rng
        if self.has('nword', 0.15):
            self.n += 10
            text = ('N%d ' % self.n) + text
        if self.has('comment', 0.15):
            c = r.choice(['( note)', '(two words)', '(a) (b)', '; semi', ';x=1, y=2', '( ) (c)', '(d)()', ';', '()'])
            if '(' in text or ';' in text:
                pass
            elif c[0] == '(' and r.random() < 0.3:
                text = c + ' ' + text
            else:
                text = text + ' ' + c
        elif self.has('macro', 0.04):
            text = text + ' ' + r.choice(['%', '%macro%', '%m1'])
        if r.random() < self.styles * 0.3:
            text = r.choice([' ', '\t', '']) + text + r.choice([' ', '  ', ''])
        return text

    # ---- pieces
    def target(self, n=None, axes=None):
        """axis words of a linear move"""
        r = self.rng
        axes = list(axes or self.axes)
        if self.has('extra', 0.2):
            axes += ['U', 'A']
        k = n or r.choice([1, 1, 2, 2, 3, len(axes)])
        chosen = [a for a in axes if a in r.sample(axes, min(k, len(axes)))]
        words = []
        for a in chosen:
            words.append(a + self.num(self.coord()))
        if r.random() < self.styles:
            r.shuffle(words)
        return words

    def arc(self, explicit, inc):
        """words of an arc: exact on the decimal grid"""
        r = self.rng
        m = self.m
        plane = m.plane
        if plane not in model.PLANE_AXES:
            return None
        (p, q) = model.PLANE_AXES[plane]
        normal = model.PLANE_NORMAL[plane]
        pos = m.work
        if any(abs(v) > 50000 for v in pos.values()):
            return None
        base = r.choice([V65, V25, V5])
        s = r.choice([0.01, 0.02, 0.1, 0.2, 0.1, 0.5, 1.0] if base is not V65 else [0.002, 0.01, 0.1, 0.1, 0.2])
        vecs = []
        for _ in range(2):
            (a, b) = r.choice(base)
            vecs.append((a * r.choice([1, -1]) * s, b * r.choice([1, -1]) * s))
        (va, vb) = vecs
        rad = (base[0][0] ** 2 + base[0][1] ** 2) ** 0.5 * s
        full = r.random() < 0.08
        if full:
            vb = va
        elif abs(va[0] - vb[0]) < 1e-9 and abs(va[1] - vb[1]) < 1e-9:
            vb = (-va[0], -va[1])
        centre = (pos[p] - va[0], pos[q] - va[1])
        end = (centre[0] + vb[0], centre[1] + vb[1])
        delta = (vb[0] - va[0], vb[1] - va[1])
        words = []
        tgt = delta if inc else end
        for (a, v, d) in ((p, tgt[0], delta[0]), (q, tgt[1], delta[1])):
            # an unmoved axis may be left out
            if abs(d) > 1e-9 or full or r.random() < 0.5:
                words.append(a + self.num(v))
        if r.random() < 0.25:
            words.append(normal + self.num(self.coord() / 4 if not self.small else r.randint(-30, 30) / 10.0))
        if not words:
            return None
        semi = abs(va[0] + vb[0]) < 1e-9 and abs(va[1] + vb[1]) < 1e-9
        if not full and not semi and r.random() < 0.3 and abs(delta[0]) + abs(delta[1]) > 0.05:
            # by radius
            words.append('R' + self.num(rad * r.choice([1, -1])))
        else:
            ij = {'X': 'I', 'Y': 'J', 'Z': 'K'}
            absolute = m.word('arc_ijk_distance') == 90.1
            for (a, v, c) in ((p, -va[0], centre[0]), (q, -va[1], centre[1])):
                # an absent IJK is zero
                value = c if absolute else v
                if abs(value) > 1e-9 or r.random() < 0.5 or absolute:
                    words.append(ij[a] + self.num(value))
        if self.turns and r.random() < self.turns:
            words.append('P' + r.choice(['1', '2', '3']))
        return words

    def canned(self, inc, code):
        r = self.rng
        m = self.m
        z0 = m.work['Z'] if 'Z' in m.axes else 0.0
        words = []
        fine = r.random() < 0.1
        if fine:
            # small against everything that has a fixed size
            (ret, z) = (r.choice([-0.004, 0, 0.002, 0.5]), -r.choice([0.004, 0.05, 0.125, 0.007]))
            if not inc:
                ret = round((z0 if abs(z0) < 1000 else 5) + ret, 4)
                z = round(ret + z, 4)
            at = [r.choice([0.006, -0.002, 0.001, 0.0005, 1]) for a in 'XY']
            words += [a + self.num(v if inc else round(m.work.get(a, 0.0) + v, 4)) for (a, v) in zip('XY', at) if r.random() < 0.8]
        elif inc:
            ret = r.choice([-2, -1, -0.5, 0.5, 1, 0, 2.5]) if not self.fullcanned else r.choice([-2, -0.5, 0, 0.5, 1.5])
            z = -r.choice([0.5, 1, 2, 3.25, 0.125, 5])
            words += [a + self.num(r.choice([0, 1, -2, 3.5, 0.75])) for a in 'XY' if r.random() < 0.8]
        else:
            ret = r.choice([z0, z0 + 1, z0 - 1, 2, 5, 0.5]) if abs(z0) < 1000 else 5
            ret = round(ret, 3)
            z = ret - r.choice([0.5, 1, 2, 3.25, 0.125, 5])
            words += [a + self.num(self.coord()) for a in 'XY' if r.random() < 0.8]
        words += ['Z' + self.num(z), 'R' + self.num(ret)]
        if code in ('G82', 'G89') or (code in ('G81', 'G85') and r.random() < 0.2):
            words.append('P' + r.choice(['0.5', '1', '0.25']))
        if code in ('G83', 'G73'):
            words.append('Q' + r.choice(['0.02', '0.003', '0.05'] if fine else ['0.25', '1', '0.5', '2', '10']))
        if r.random() < self.repeats:
            words.append('L%d' % r.choice([1, 2, 2, 3, 3, 4, 4, 0]))
        if not self.fullcanned and r.random() < 0.15:
            # (whoever expands cycles has to know them whole)
            out = r.choice('RRZ')
            words = [w for w in words if w[0] != out]
        return words

    # ---- one line
    def candidate(self):
        r = self.rng
        m = self.m
        if self.has('blank', 0.06):
            return r.choice(['', '', '(comment only)', '; only', '   '])
        words = []
        inc = m.incremental
        others = []
        if self.has('misc', 0.25):
            others.append([self.code(r.choice(MISC))])
        if ('multi' in self.feats or not others) and self.has('misc', 0.25):
            others.append([r.choice(['F%d' % r.randint(1, 2000), 'S%d' % r.randint(0, 24000), 'T%d' % r.randint(0, 20),
                                     'F%s' % fmt(r.randint(1, 9999) / 10.0)])])
        if ('multi' in self.feats or not others) and self.has('sticky', 0.08):
            t = r.choice(STICKY) % r.randint(1, 9)
            others.append(t.split(' '))
        if ('multi' in self.feats or not others) and self.has('rare', 0.05):
            t = r.choice(RARE)
            others.append((t % r.randint(0, 3) if '%' in t else t).split(' '))
        room = lambda: 'multi' in self.feats or not others
        changed = False
        if room() and self.has('inc', 0.12):
            inc = not inc
            changed = True
            others.append([self.code('G91' if inc else 'G90')])
        if room() and self.has('arcabs', 0.06):
            others.append([r.choice(['G90.1', 'G91.1'])])
        if room() and self.has('plane', 0.08):
            others.append([r.choice(['G17', 'G18', 'G19'] + (['G17.1'] if 'uv' in self.feats else []))])
        if room() and self.has('cs', 0.08):
            others.append([r.choice(['G54', 'G55', 'G56', 'G57', 'G58', 'G59', 'G59.1', 'G59.2', 'G59.3'])])
        if room() and self.has('retract', self.returns):
            others.append([r.choice(['G98', 'G99'])])
        mode = m.word('motion')
        in_canned = mode in model.CANNED
        c = r.random()
        kinds = []
        motion = None
        stateful = any(o[0].upper().replace(' ', '').lstrip('G') in
                       ('17', '18', '19', '17.1', '90.1', '91.1', '54', '55', '56', '57', '58', '59', '59.1', '59.2', '59.3')
                       for o in others)
        if c < 0.12 and others:
            motion = []                       # no motion at all
        elif self.has('dwell', 0.04):
            motion = [self.code('G4'), 'P' + r.choice(['0.5', '1', '2.25'])]
        elif self.has('canned', 0.03) or (in_canned and r.random() < 0.12):
            motion = ['G80']
        elif self.has('canned', self.cycles) and not stateful and (not self.fullcanned or m.plane == 17.0):
            code = r.choice(['G81', 'G82', 'G83', 'G73', 'G85', 'G89'])
            motion = [code] + self.canned(inc, code)
        elif self.has('arc', 0.25) and not stateful:
            w = self.arc(True, inc)
            if w:
                if mode in (2.0, 3.0) and self.has('modal', 0.4):
                    motion = w
                else:
                    motion = [self.code(r.choice(['G2', 'G3']))] + w
        elif self.has('othermotion', 0.08):
            motion = [r.choice(['G33', 'G38.2', 'G38.3', 'G5.1', 'G5'])] + self.target()
            if motion[0] in ('G5', 'G5.1'):
                motion += ['I1', 'J2']
        if motion is None:
            if self.has('modal', 0.5) and mode is not None and not self.no_modal:
                if mode in (0.0, 1.0):
                    motion = self.target()
                elif in_canned and not changed and (not self.fullcanned or m.plane == 17.0) and not stateful:
                    motion = [a + self.num(self.coord() if not inc else r.choice([1, 2, -1.5])) for a in 'XY' if r.random() < 0.7]
                    motion = motion or ['X1']
                    if r.random() < 0.1:
                        motion.append('L2')
                elif mode not in (2.0, 3.0) and not in_canned and 'othermotion' in self.feats:
                    motion = self.target()
            if motion is None:
                motion = [self.code(r.choice(['G0', 'G1', 'G1']))] + self.target()
        # parameters follow their command; other commands go before or after it
        # (never letting a word be taken by a command it is not meant for)
        before = []
        after = []
        for o in others:
            if motion and motion[0][0].upper() in 'GM' and len(o) == 1 and r.random() < 0.35:
                after.append(o)
            else:
                before.append(o)
        r.shuffle(before)
        for o in before + [motion] + after:
            words += o
        return self.join([w for w in words if w])

    def line(self):
        for _ in range(60):
            text = self.candidate()
            trial = self.m.clone()
            try:
                block = model.parse(text)
                codes = trial.execute(block)
            except (model.Refused, model.Unsure):
                continue
            if not self.acceptable(block, codes, trial):
                continue
            self.m = trial
            text = self.decorate(text)
            self.lines.append(text)
            return text
        self.lines.append('G80')
        self.m.execute_text('G80')
        return 'G80'

    def acceptable(self, block, codes, after):
        if any(abs(v) > 2e5 for v in after.abs.values()):
            return False
        has_own = any(c.spec.group == 'motion' or c.word == ('G', 80.0) for c in block.codes)
        if block.left and has_own:
            return False
        for c in codes:
            if self.fullcanned and c.spec.group == 'motion' and c.word[1] in model.CANNED:
                if 'Z' not in c.params or 'R' not in c.params:
                    return False
                # retained parameters still make sense only in the mode they were given in
                if after.word('plane_selection') not in (None, 17.0):
                    return False
                inc = after.incremental
                if inc and c.params['Z'] > 0:
                    return False
                if not inc and c.params['Z'] > c.params['R']:
                    return False
                if c.word[1] in (83.0, 73.0) and not c.params.get('Q'):
                    return False
                if 'Q' in c.params and abs(c.params['Z']) / max(abs(c.params['Q']), 1e-9) > 200:
                    return False
                if abs(c.params['Z'] - c.params['R']) > 60:
                    return False
            if c.word[1] in (2.0, 3.0) and c.word[0] == 'G':
                if not ('R' in c.params or set('IJK') & set(c.params)):
                    return False
        return True

    def program(self, n):
        for _ in range(n):
            self.line()
        return self.lines


def swarm(rng, always=(), never=(), p=0.6):
    """a random subset of the features (each run exercises its own mix)"""
    return sorted(f for f in set(ALL) | set(always) if (f in always or rng.random() < p) and f not in never)
