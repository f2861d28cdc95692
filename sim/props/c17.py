"""C17 damaged input is refused with a documented error or read for what it says"""
import math
import re

from .. import faults, gen, history, model, observe, tasks
from ..core import Violation
from .c05 import code_key

RUNS = {'quick': 2600, 'thorough': 80000}
RULE = ("one run = 6-40 lines of a program arriving damaged (characters flipped, changed, lost, inserted, repeated, "
        "swapped, cut short at either end, garbage, non-ASCII look-alikes, very long repetitions) between intact ones at a "
        "machine, each read through Line, Block, text2gcodes, str2word, its arcs linearised and cycles expanded, and executed; compared with the model's reading of "
        "what remains legible; each is read twice; non-trivial: at least one damaged line accepted and one refused; "
        "distinct by scenario content")
REAL = ['pygcode parser, gcodes, blocks, comments, machine, transform']
STUB = ['the link delivering lines (simulated, faulty)', 'reference model (sim/model.py) as oracle']
MEASURE = 'distinct (kinds of damage, outcome, kind of refusal) combinations'
ASSUMPTIONS = ['for lines with non-ASCII characters, only the kind of outcome is checked, not the meaning']


# arcs and cycles with something amiss
EXPANDABLE = ['G2 X1 Y1', 'G3 R5', 'G2 X1 Y1 I1 R1', 'G3 X4 R0', 'G2 X9 Y9 I0 J0', 'G2 X900 R1', 'G3 I1', 'G17.1 G2 X1 I1', 'G18.1 G3 Z1 R3', 'G18 G2 X1 I1', 'G81 X1', 'G81 X1 Z-1',
              'G82 X1 R1', 'G99 G82 X1 Z1 R1', 'G83 X1 Z-1 R1', 'G83 X1 Z-9 R1 Q0', 'G73 X1 Z-9 R1 Q-2', 'G91 G83 X1 Z-9 R1 L3', 'G81 Z5 R1', 'G3 X5 Y5 R5 P2', 'G2 X3 I1 P0',
              'G2 Y4 J1 P1.5', 'G2 I0 J0 Z1', 'G3 X0 Y0 R4', 'G76 X1 Z2 P3 R6', 'G82 Z-3 R0', 'G89 Z-3 R-5 P1', 'G19 G85 Z-3 R1', 'G83 Z-2 R1 Q0.5']


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['othermotion'] if rng.random() < 0.4 else [])
    m = model.Machine('XYZ')
    odd = rng.random() < 0.3
    ops = []
    for _ in range(rng.randint(6, 18 if tier == 'quick' else 40)):
        g = gen.Gen(rng, feats, 'XYZ', machine=m.clone())
        intact = 0.2
        if rng.random() < 0.16:
            intact = 0.6
            text = rng.choice(EXPANDABLE) if rng.random() < 0.7 else rng.choice(['O100', 'Oprog', 'N5 O<x>', 'G10 L2 P1 X5', 'M98 P5', 'G5 X1 I1 J2 P3 Q4', 'G76 X1 Z2 P3 I4 J5 R6 K7 Q8 H9 E1 L2'])
        else:
            text = g.line()
        kinds = []
        if rng.random() >= intact:
            (text, kinds) = faults.damage(rng, text, odd)
        r = rng.random()
        if 0.01 <= r < 0.025:
            # more digits than python converts, or than it calculates with
            i = rng.randrange(len(text) + 1)
            text = text[:i] + rng.choice('0123456789') * rng.choice([18, 160, 300, 400, 5000]) + text[i:]
            kinds.append('damage:digits')
        elif 0.025 <= r < 0.05:
            text = re.sub('[0-9]', lambda x: x.group() + rng.choice(['\x1c', '\x1d', '\x1f', ' ', '\t', '\x0b', '\x00']), text, count=rng.randint(1, 3))
            kinds.append('damage:control')
        elif r < 0.01:
            i = rng.randrange(len(text) + 1)
            text = text[:i] + text[i:i + 3] * rng.choice([50, 200]) + text[i:]
            kinds.append('damage:long')
        history.model_deliver(m, text)
        ops.append([text, kinds])
    return {'ops': ops}


def outcome(func, also=()):
    """('ok', result) or ('refused', type name, message); Violation for any other exception"""
    try:
        return ('ok', func())
    except Exception as e:
        if not history.is_documented(e) and not isinstance(e, also):
            raise Violation('undocumented-exception', '%s: %s' % (type(e).__name__, e))
        return ('refused', type(e).__name__, str(e))


def read(text):
    from pygcode.line import Line
    return tasks.fingerprint(Line(text)) + repr((str(Line(text).comment), Line(text).macro))


def expand(text, machine):
    """[the moves that stand in for each of the line's arcs and cycles, or how that was refused]"""
    from itertools import islice
    from pygcode import transform
    from pygcode.gcodes import GCodeArcMove, GCodeCannedCycle
    from pygcode.line import Line
    mode = machine.mode
    out = []
    for g in machine.block_modal_gcodes(Line(text).block):
        if isinstance(g, GCodeArcMove):
            moves = lambda: transform.linearize_arc(g, machine.pos, plane=mode.plane_selection, dist_mode=mode.distance,
                                            arc_dist_mode=mode.arc_ijk_distance, max_error=MAX_ERROR)
        elif isinstance(g, GCodeCannedCycle):
            moves = lambda: transform.simplify_canned_cycle(g, machine.pos, plane=mode.plane_selection, dist_mode=mode.distance,
                                                    retract_mode=mode.canned_cycles_return)
        else:
            continue
        out.append(outcome(lambda: [str(m) for m in islice(moves(), 60)], NotImplementedError))
    return out


MAX_ERROR = 0.5


def expandable(c, m):
    """True, or False, or None (unsure): whether the code can be replaced by moves"""
    p = c.params
    if any(isinstance(v, float) and abs(v) > 1e6 for v in p.values()) or any(abs(v) > 1e6 for v in m.work.values()):
        return None
    if c.word[1] in (2.0, 3.0):
        if m.plane not in model.PLANE_AXES or not set(p) & set('XYZ') or not set(p) & set('IJKR') or \
                ('R' in p and set(p) & set('IJK')) or p.get('R') == 0 or p.get('P', 1) < 1 or p.get('P', 1) % 1:
            return False
        after = m.clone()
        try:
            after.execute_code(c)
        except model.Unsure:
            return None
        (start, end) = ([mm.work[a] for a in model.PLANE_AXES[m.plane]] for mm in (m, after))
        chord = math.hypot(start[0] - end[0], start[1] - end[1])
        if 'R' in p:
            if chord < 1e-5:
                return False if chord < 1e-7 else None
            radius = abs(p['R'])
        else:
            centre = [p.get({'X': 'I', 'Y': 'J', 'Z': 'K'}[a], 0.0) + (0.0 if m.word('arc_ijk_distance') == 90.1 else m.work[a])
                      for a in model.PLANE_AXES[m.plane]]
            radius = sum(math.hypot(x[0] - centre[0], x[1] - centre[1]) for x in (start, end)) / 2
            if radius < 1e-5:
                return False if radius == 0 else None
        short = chord / 2 - radius - MAX_ERROR
        return None if abs(short) < 1e-5 else short < 0
    if c.word[1] == 76.0 or m.plane != 17.0 or p.get('Z') is None or p.get('R') is None:
        return False
    if c.word[1] in (73.0, 83.0) and not p.get('Q'):
        return False
    up = p['Z'] if m.incremental else p['Z'] - p['R']
    return None if 0 < up < 1e-5 else up <= 0


def check_expansion(text, real, ref, ctx):
    (a, b) = (expand(text, real), expand(text, real))
    if a != b:
        raise Violation('not-repeatable', '%s\n%s' % (a, b))
    codes = [c for c in ref.resolve(model.parse(text)) if c.word in (('G', 2.0), ('G', 3.0)) or (c.word[0] == 'G' and c.word[1] in model.CANNED)]
    if len(codes) != len(a):
        raise Violation('misexpanded', '%d arcs and cycles instead of %d' % (len(a), len(codes)))
    for (x, c) in zip(a, codes):
        want = expandable(c, ref)
        ctx.probe('expanded' if x[0] == 'ok' else 'expansion-refused')
        if want is not None and want != (x[0] == 'ok'):
            raise Violation('expansion', '%s, must be %s' % (x, 'expanded' if want else 'refused'))
        for move in (x[1] if x[0] == 'ok' else []):
            try:
                model.parse(move)
            except model.Refused as e:
                raise Violation('misexpanded', '%r: %s' % (move, e))


def execute(scenario, ctx):
    from pygcode.line import Line
    from pygcode.block import Block
    from pygcode.gcodes import text2gcodes, words2gcodes
    from pygcode.words import str2word, text2words
    real = history.machine_class('XYZ')()
    ref = model.Machine('XYZ')
    accepted = refused = 0
    for (n, (text, kinds)) in enumerate(scenario['ops']):
        where = 'line %d %r' % (n + 1, text)
        for k in kinds:
            ctx.fault(k)
        ctx.step()
        try:
            a = outcome(lambda: read(text))
            b = outcome(lambda: read(text))
            if a != b:
                raise Violation('not-repeatable', '%s\n%s' % (a, b))
            want = None
            try:
                parsed = model.parse(text)
                want = True
            except model.Refused:
                want = False
            except model.Unsure:
                pass
            if want is not None and want != (a[0] == 'ok'):
                raise Violation('verdict', '%s, must be %s' % (a, 'accepted' if want else 'refused'))
            if want:
                block = Line(text).block
                got = sorted(observe.code_key(g) for g in block.gcodes)
                exp = sorted(code_key(c) for c in parsed.codes)
                left = [observe.word_key(w) for w in block.modal_params]
                exp_left = [(l, v if l == 'O' else model.num(v)) for (l, v) in parsed.left]
                if got != exp or left != exp_left:
                    raise Violation('misread', 'read as %s %s instead of %s %s' % (got, left, exp, exp_left))
                plain = model.split_line(text)[0]
                outcome(lambda: text2gcodes(plain))
                outcome(lambda: str2word(plain))
            # other ways in: any outcome that is documented
            for way in (lambda: list(text2words(text)), lambda: str2word(text), lambda: [str(g) for g in text2gcodes(text)],
                        lambda: str(Block(text)), lambda: str(Block(text, verify=False))):
                x = outcome(way)
                y = outcome(way)
                if str(x) != str(y):
                    raise Violation('not-repeatable', '%s\n%s' % (x, y))
            # and executed
            before = ref.clone()
            verdict = history.model_deliver(ref, text)
            if verdict == 'unsure':
                if a[0] == 'ok' and not re.search(r'[Ll]\s*\d{4}', text):
                    # (repeating a cycle thousands of times is just slow) the machine may go anywhere: try it on a copy
                    from copy import copy
                    outcome(lambda: copy(real).process_str(text))
                    ctx.probe('unsure')
                continue
            if a[0] == 'ok' and verdict == 'ok':
                check_expansion(text, real, before, ctx)
            x = outcome(lambda: real.process_str(text))
            if (x[0] == 'ok') != (verdict == 'ok'):
                raise Violation('verdict', 'machine: %s, must be %s' % (x, verdict))
            d = observe.diff(observe.state(real), observe.model_state(ref))
            if d:
                raise Violation('misexecuted', '; '.join(d))
        except Violation as e:
            raise Violation(e.kind, '%s: %s' % (where, e.detail))
        if kinds:
            if x[0] == 'ok':
                accepted += 1
                ctx.probe('damaged-accepted')
            else:
                refused += 1
                ctx.probe('damaged-refused:' + x[1])
            ctx.state(tuple(sorted(kinds)), x[0], x[1] if x[0] != 'ok' else None)
        ctx.log(repr(text), a, x[0])
    ctx.nontrivial = accepted > 0 and refused > 0
