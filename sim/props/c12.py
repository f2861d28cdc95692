"""C12 linearised arcs, cut anywhere"""
import math

from .. import gen, geometry, model, programs, scriptsim, history, observe
from ..core import Violation

RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ("one run = one arc (centre or radius format, 3 planes, helical, full circles, several turns, absolute / incremental, exact or "
        "rounded to 3 decimals, with coordinate offsets) linearised step by step on a machine that carries the moves "
        "out and is stopped after a random move; or one program through pygcode-norm -al whose output is cut after "
        "every line; non-trivial: at least 2 moves replace an arc; distinct by scenario content")
REAL = ['pygcode.transform.linearize_arc and the linearizing methods', 'pygcode.machine', 'scripts/pygcode-norm']
STUB = ['consumption and stops (simulated)', 'exact arc geometry as oracle (sim/geometry.py)', 'file system, streams']
MEASURE = 'distinct (plane, direction, format, distance modes, method, error magnitude, sweep octant, helical) combinations'
ASSUMPTIONS = ['arcs given to 3 decimals whose radii differ accordingly may be off by as much in addition',
               'incremental coordinates are rounded to the decimal places asked for']


def api_case(rng, tier):
    plane = rng.choice(['G17', 'G17', 'G18', 'G19'])
    setup = [plane]
    if rng.random() < 0.4:
        setup.append(rng.choice(['G90.1', 'G91.1', 'G91.1']))
    pos = [rng.randint(-20000, 20000) / 1000.0 if rng.random() < 0.6 else rng.randint(-9, 9) for _ in range(3)]
    setup.append('G0 X%s Y%s Z%s' % tuple(gen.fmt(v) for v in pos))
    inc = rng.random() < 0.4
    if inc:
        setup.append('G91')
    if 'G90.1' not in setup and rng.random() < 0.3:
        setup = [s for s in setup if s != 'G91.1']
    g = gen.Gen(rng, [], 'XYZ', small=True)
    for s in setup:
        g.m.execute_text(s)
    noise = rng.random() < 0.35
    mirrored = not noise and rng.random() < 0.2
    while True:
        if mirrored:
            words = mirrored_arc(rng, g.m, inc)
        elif noise:
            words = noisy_arc(rng, g.m, inc)
        else:
            words = g.arc(True, inc)
        if words and set(w[0] for w in words) & set('XYZ') and set(w[0] for w in words) & set('IJKR'):
            break
    err = rng.choice([0.5, 0.1, 0.05, 0.02, 0.01, 0.005, 0.002, 2, 30])
    if rng.random() < 0.12:
        words.append('P' + rng.choice(['1', '2', '2', '3', '5']))
    case = {'kind': 'api', 'setup': setup, 'arc': rng.choice(['G2 ', 'G3 ']) + ' '.join(words),
            'method': rng.choice(['i', 'o', 'm', None]), 'err': err, 'noise': noise,
            'places': rng.choice([3, 3, 3, 4, 2]) if inc else 3,
            'defaults': rng.random() < 0.15, 'cut': round(rng.random(), 3)}
    if rng.random() < 0.3:
        case['offset'] = dict((a, rng.randint(-5000, 5000) / 1000.0) for a in 'XYZ')
    return case


def noisy_arc(rng, m, inc):
    """an arc as CAM software writes it: every number rounded to 3 decimals"""
    (p, q) = model.PLANE_AXES[m.plane]
    normal = model.PLANE_NORMAL[m.plane]
    pos = m.work
    r = rng.choice([0.5, 1, 3.175, 5, 10, 25, 100, 500]) * rng.uniform(0.7, 1.3)
    a0 = rng.uniform(0, 2 * math.pi)
    sweep = rng.choice([rng.uniform(0.3, 5.9), math.pi, math.pi / 2, math.pi * 1.5, rng.uniform(3.0, 3.3), 2 * math.pi - rng.uniform(0, 0.4) ** 2, rng.uniform(0, 0.4) ** 2])
    a1 = a0 + sweep
    c = (pos[p] - r * math.cos(a0), pos[q] - r * math.sin(a0))
    e = (round(c[0] + r * math.cos(a1), 3), round(c[1] + r * math.sin(a1), 3))
    chord = math.hypot(e[0] - pos[p], e[1] - pos[q])
    if chord < 0.0005:
        return None
    words = [p + gen.fmt(e[0] - (pos[p] if inc else 0)), q + gen.fmt(e[1] - (pos[q] if inc else 0))]
    if rng.random() < 0.2:
        words.append(normal + gen.fmt(rng.randint(-3000, 3000) / 1000.0))
    if rng.random() < 0.3 and abs(sweep - math.pi) > 0.2:
        words.append('R' + gen.fmt(r if sweep < math.pi else -r))
    else:
        ij = {'X': 'I', 'Y': 'J', 'Z': 'K'}
        absolute = m.word('arc_ijk_distance') == 90.1
        words += [ij[p] + gen.fmt(c[0] - (0 if absolute else pos[p])), ij[q] + gen.fmt(c[1] - (0 if absolute else pos[q]))]
    return words


def mirrored_arc(rng, m, inc):
    """start and end at exactly the same distance, close to each other or to the opposite of each other"""
    (p, q) = model.PLANE_AXES[m.plane]
    pos = m.work
    (u, v) = (rng.choice([1, -1]) * rng.choice([0.5, 2, 10, 25, 60]), rng.choice([1, -1]) * rng.choice([0.001, 0.004, 0.02, 0.05, 0.1, 0.3]))
    (c, e) = ((u, v), rng.choice([(0, 2 * v), (2 * u, 0), (2 * u, 2 * v)]))
    if rng.random() < 0.5:
        (c, e) = (c[::-1], e[::-1])
    ij = {'X': 'I', 'Y': 'J', 'Z': 'K'}
    absolute = m.word('arc_ijk_distance') == 90.1
    return [a + gen.fmt(e[i] + (0 if inc else pos[a])) for (i, a) in enumerate((p, q))] + \
        [ij[a] + gen.fmt(c[i] + (pos[a] if absolute else 0)) for (i, a) in enumerate((p, q))]


def script_case(rng, tier):
    feats = gen.swarm(rng, always=['arc', 'modal', 'arcabs', 'inc', 'plane'], never=['canned', 'big', 'rare'])
    g = gen.Gen(rng, feats, 'XYZ', machine=programs.controller(), small=True)
    g.turns = rng.choice([0, 0, 0.2])
    lines = g.program(rng.randint(3, 7 if tier == 'quick' else 14))
    args = ['-al'] + (['-alp', rng.choice(['0.5', '0.1', '0.02', '0.05'])] if rng.random() < 0.85 else [])
    if rng.random() < 0.6:
        args += ['-alm', rng.choice(['i', 'o', 'm', 'i,o', 'o,m', 'm,i'])]
    args += [o for o in ('-s', '-f', '-rc', '-rb', '-rws') if rng.random() < 0.2]
    return {'kind': 'script', 'lines': lines, 'args': args, 'plan': scriptsim.random_plan(rng, 300)}


def generate(rng, tier, index):
    return script_case(rng, tier) if rng.random() < 0.35 else api_case(rng, tier)


FIXED_LISTS = ('args', 'reads', 'writes', 'setup')


def simpler(s):
    if s.get('plan'):
        yield dict(s, plan={})
    if s.get('offset'):
        yield dict((k, v) for (k, v) in s.items() if k != 'offset')
    if s.get('cut') not in (None, 0.999):
        yield dict(s, cut=0.999)
    if 'args' in s:
        for o in ('-s', '-f', '-rc', '-rb', '-rws'):
            if o in s['args']:
                yield dict(s, args=[a for a in s['args'] if a != o])


def well_formed(c):
    """the arcs pygcode accepts"""
    p = set(c.params)
    return bool(p & set('XYZ')) and bool(p & set('IJKR')) and not ('R' in p and p & set('IJK')) and c.params.get('P', 1) in (1, 2, 3, 4, 5) \
        and c.params.get('R', 1) != 0


def xyz(m, work=True):
    d = m.work if work else m.abs
    return dict((a, d[a]) for a in 'XYZ')


def execute(scenario, ctx):
    if scenario['kind'] == 'api':
        execute_api(scenario, ctx)
    else:
        execute_script(scenario, ctx)


METHODS = {'i': 'ArcLinearizeInside', 'o': 'ArcLinearizeOutside', 'm': 'ArcLinearizeMid'}


def execute_api(scenario, ctx):
    from pygcode import transform
    from pygcode.line import Line
    real = history.machine_class('XYZ')()
    ref = model.Machine('XYZ')
    if scenario.get('offset'):
        history.set_offset(real, ref, 1, scenario['offset'])
        # offsets do not move the machine: set the work position explicitly
        history.Runner.op_pos(type('R', (), {'real': real, 'ref': ref})(), dict((a, 0.0) for a in 'XYZ'))
    for t in scenario['setup']:
        real.process_str(t)
        ref.execute_text(t)
    start = xyz(ref)
    try:
        block = model.parse(scenario['arc'])
    except model.Refused:
        return
    c = block.codes[0]
    if not well_formed(c) or block.left or len(block.codes) != 1:
        return
    target = ref.clone()
    target.execute_text(scenario['arc'])
    end = xyz(target)
    arc = geometry.Arc(c.word, c.params, start, end, ref.plane, ref.word('arc_ijk_distance') == 90.1)
    if not arc.ok:
        return
    kw = {'max_error': scenario['err']}
    if scenario['method']:
        kw['method_class'] = getattr(transform, METHODS[scenario['method']])
    inc = ref.incremental
    rounding = 0.0
    if inc:
        kw['decimal_places'] = scenario['places']
        rounding = 0.5 * 10 ** -scenario['places'] * 1.7321
    if not (scenario.get('defaults') and ref.plane == 17.0):
        kw['plane'] = real.mode.plane_selection
    if not (scenario.get('defaults') and not inc):
        kw['dist_mode'] = real.mode.distance
    if not (scenario.get('defaults') and ref.word('arc_ijk_distance') in (91.1, None)):
        kw['arc_dist_mode'] = real.mode.arc_ijk_distance
    gcode = Line(scenario['arc']).block.gcodes[0]
    pts = [start]      # as the written moves go
    codes = [start]    # as the moves themselves go
    moves = 0
    items = transform.linearize_arc(gcode, real.pos, **kw)
    count = 0
    texts = []
    for g in items:
        if g.word.letter != 'G' or g.word.value != 1:
            raise Violation('not-linear', '%r yields %r' % (scenario['arc'], g))
        # the machine carries it out; the controller gets its text
        text = str(g)
        texts.append(text)
        real.process_gcodes(g)
        try:
            ref.execute_text(text)
        except model.Refused as e:
            raise Violation('unreadable', '%r yields %r: %s' % (scenario['arc'], text, e))
        b = xyz(ref)
        for k in 'XYZ':
            if abs(observe.pos(real.pos)[k] - b[k]) > 0.00051 + (0 if not inc else 0.00051 * (count + 1)):
                raise Violation('text', '%r: text %r brings %s to %r, the code itself to %r' % (
                    scenario['arc'], text, k, b[k], observe.pos(real.pos)[k]))
        codes.append(observe.pos(real.pos))
        pts.append(b)
        count += 1
        ctx.step()
        ctx.log(text)
        if count > 20000:
            raise Violation('endless', '%r with error %g: over 20000 moves' % (scenario['arc'], scenario['err']))
    cut = 1 + int(scenario['cut'] * count)
    ctx.fault('stopped-midway' if cut < count else 'stopped-at-end')
    final_round = 0.6 * 10 ** -scenario['places'] if inc and scenario['places'] < 3 else 0.0
    if inc and scenario['places'] > 3:
        pts = codes     # 3 decimals are written: the finer moves are lost in text
    what = '%s after %s, method %s, error %g' % (scenario['arc'], scenario['setup'], scenario['method'], scenario['err'])
    # stopped after any move: where it is, is on the covered part; the whole ends at the end
    bad = geometry.check_arc(arc, codes[:cut + 1], scenario['err'], rounding, None)
    if not bad:
        bad = geometry.check_arc(arc, codes, scenario['err'], max(rounding, final_round), end)
    if not bad and scenario['method'] in ('m', None):
        # as much inside as outside
        bad = geometry.check_arc(arc, codes, scenario['err'] / 2, max(rounding, final_round), end)
    if not bad and scenario['method'] in ('i', 'o'):
        bad = geometry.check_side(arc, codes, scenario['method'], max(rounding, final_round))
    if not bad and pts is not codes:
        bad = geometry.check_arc(arc, pts, scenario['err'], max(rounding, final_round, 0.00087), end)
        bad = bad and bad + ' (as written)'
    if bad:
        raise Violation('arc', '%s: %s; moves: %s' % (what, bad, texts[:4]))
    ctx.state(ref.plane, c.word, 'R' in c.params, inc, ref.word('arc_ijk_distance'), scenario['method'], scenario['err'],
              int(min(arc.sweep, 7) / (math.pi / 4)), c.params.get('P'), abs(arc.h0 - arc.h1) > 1e-9)
    ctx.probe('turns' if arc.sweep > 6.29 else 'full-circle' if arc.sweep > 6.2831 else 'arc')
    ctx.nontrivial = count >= 2


def outputs_per_line(script, args, lines, plan=None):
    """[(output lines for source line i)] using that output only grows; None when it fails"""
    done = ''
    out = []
    for i in range(len(lines) + 1):
        res = scriptsim.run(script, args, ''.join(x + '\n' for x in lines[:i]), plan if i == len(lines) else None)
        if res.status != 0:
            raise Violation('failed', '%s %s ends with status %s on %r: %s' % (script, args, res.status, lines[:i][-1:], res.err[-300:]))
        if not res.text.startswith(done):
            raise Violation('rewritten', '%s %s: the output of %d lines does not start with that of %d lines' % (script, args, i, i - 1))
        new = res.text[len(done):]
        if i:
            out.append(new.split('\n')[:-1])
        done = res.text
    return out


def execute_script(scenario, ctx):
    lines = scenario['lines']
    args = scenario['args']
    err = float(args[args.index('-alp') + 1]) if '-alp' in args else 0.005     # the documented default
    check = programs.controller()
    for line in lines:
        try:
            codes = check.resolve(model.parse(line))
            check.execute_text(line)
        except (model.Refused, model.Unsure):
            return
        for c in codes:
            if c.word in (('G', 2.0), ('G', 3.0)) and not well_formed(c):
                return
    outs = outputs_per_line('pygcode-norm', ['@'] + args, lines, scenario.get('plan'))
    src = programs.controller()
    out = programs.controller()
    total = 0
    for (line, got) in zip(lines, outs):
        codes = src.resolve(model.parse(line))
        arcs = [c for c in codes if c.word in (('G', 2.0), ('G', 3.0))]
        want = programs.run_line(src.clone(), line)
        events = []
        for text in got:
            try:
                events += programs.run_line(out, text)
            except model.Refused as e:
                raise Violation('output-refused', '%r (from %r): %s' % (text, line, e))
        ctx.step(len(events))
        what = 'source line %r, norm %s' % (line, ' '.join(args))
        if not arcs:
            if len(want) != len(events) or not all(programs.same(a, b, 1e-5) for (a, b) in zip(want, events)):
                raise Violation('other-line', '%s: output does [%s] instead of [%s]' % (
                    what, '; '.join(map(programs.show, events)), '; '.join(map(programs.show, want))))
            src.execute_text(line)
            continue
        k = [i for (i, e) in enumerate(want) if e[0] in (('G', 2.0), ('G', 3.0))][0]
        (pre, post) = (want[:k], want[k + 1:])
        mid = events[k:len(events) - len(post)] if post else events[k:]
        if [e[:2] for e in events[:k]] != [e[:2] for e in pre] or [e[:2] for e in events[len(events) - len(post):]] != [e[:2] for e in post]:
            raise Violation('other-codes', '%s: output does [%s] instead of [%s]' % (
                what, '; '.join(map(programs.show, events[:6])), '; '.join(map(programs.show, want))))
        if any(e[0] != ('G', 1.0) for e in mid):
            raise Violation('not-linear', '%s: %s' % (what, [programs.show(e) for e in mid if e[0] != ('G', 1.0)][:3]))
        at = src.clone()
        for c in codes[:codes.index(arcs[0])]:
            at.execute_code(c)
        start = xyz(at)
        at.execute_code(arcs[0])
        end = xyz(at)
        arc = geometry.Arc(arcs[0].word, arcs[0].params, start, end, at.plane, at.word('arc_ijk_distance') == 90.1)
        inc = at.incremental
        if arc.ok and max(arc.radius, 1) / err < 1e5:
            points = [start] + [dict((a, e[3][a]) for a in 'XYZ') for e in mid]
            bad = geometry.check_arc(arc, points, err, 0.00087, end)
            side = (args[args.index('-alm') + 1] if '-alm' in args else 'm').split(',')[0 if arc.cw else -1]
            if not bad and side == 'm':
                bad = geometry.check_arc(arc, points, err / 2, 0.00087, end)
            if not bad and side in ('i', 'o'):
                bad = geometry.check_side(arc, points, side, 0.00087)
            if bad:
                raise Violation('arc', '%s: %s' % (what, bad))
        src.execute_text(line)
        d = programs.modes_diff(src, out, skip=('motion',))
        if d:
            raise Violation('modes', '%s: %s' % (what, '; '.join(d)))
        total += len(mid)
        ctx.probe('script-arc')
        ctx.state('script', at.plane, arcs[0].word, 'R' in arcs[0].params, inc, err)
    ctx.fault('output-cut', sum(len(o) for o in outs))
    ctx.nontrivial = total >= 2
