"""C13 expanded canned cycles, cut anywhere"""
from .. import gen, geometry, model, programs, scriptsim, history, observe
from ..core import Violation
from .c12 import outputs_per_line, xyz

RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ("one run = a session of 3-14 lines with drilling cycles (repeats, absolute / incremental, both return modes, "
        "retained parameters, coordinate offsets) expanded step by step on a machine that carries the moves out and may "
        "be stopped after any of them; or the same program through pygcode-norm -ce with its output cut after every "
        "line; every single move is checked against a model of the material and of the kind of cycle (pecks, withdrawal, dwell); non-trivial: at least one hole drilled; "
        "distinct by scenario content")
REAL = ['pygcode.transform.simplify_canned_cycle', 'pygcode.machine', 'scripts/pygcode-norm']
STUB = ['consumption and stops (simulated)', 'model of holes and material as oracle (sim/geometry.py)', 'file system, streams']
MEASURE = 'distinct (cycle, distance mode, return mode, repeats, retract above / below start, X/Y given, retained) combinations'
ASSUMPTIONS = ['material: nothing above the retract level, solid below it', 'XY plane (the only one supported)']


def generate(rng, tier, index):
    script = rng.random() < 0.4
    feats = gen.swarm(rng, always=['canned', 'modal', 'inc', 'retract'], never=['big', 'rare', 'arc'] + ([] if rng.random() < 0.3 else ['plane']))
    m = programs.controller() if script else model.Machine('XYZ')
    g = gen.Gen(rng, feats, 'XYZ', machine=m, small=True, fullcanned=True)
    case = {'kind': 'script' if script else 'api'}
    (g.cycles, g.returns, g.repeats) = (rng.choice([0.3, 0.6]), 0.2, rng.choice([0.1, 0.5]))
    if not script and rng.random() < 0.4:
        case['offset'] = dict((a, rng.randint(-5000, 5000) / 1000.0) for a in 'XYZ')
        m.offsets[1].update(case['offset'])
        m.set_work(dict((a, 0.0) for a in 'XYZ'))
    n = rng.randint(3, 7 if tier == 'quick' else 14)
    for _ in range(n):
        g.line()
    case['lines'] = g.lines
    if script:
        case['lines'] = expandable(g.lines)
        case['args'] = ['-ce'] + [o for o in ('-s', '-f', '-rc', '-rb', '-rws') if rng.random() < 0.2]
        if rng.random() < 0.2:
            case['args'] += ['-cc', rng.choice(['G81', 'G81,G83', 'G82,G73,G89', 'G85,G81'])]
        case['plan'] = scriptsim.random_plan(rng, 300)
    else:
        case['stop'] = round(rng.random(), 3)
    return case


FIXED_LISTS = ('args', 'reads', 'writes')


def simpler(s):
    if s.get('plan'):
        yield dict(s, plan={})
    if s.get('offset'):
        yield dict((k, v) for (k, v) in s.items() if k != 'offset')
    if 'args' in s:
        for o in ('-s', '-f', '-rc', '-rb', '-rws'):
            if o in s['args']:
                yield dict(s, args=[a for a in s['args'] if a != o])


def supported(c, m):
    p = c.params
    if 'Z' not in p or 'R' not in p or m.plane != 17.0 or set(p) & set('UVW'):
        return False
    depth_ok = p['Z'] < -1e-6 if m.incremental else p['Z'] < p['R'] - 1e-6   # (otherwise there is no hole)
    if not depth_ok:
        return False
    if c.word[1] in (83.0, 73.0) and not p.get('Q'):
        return False
    # started from inside the material, deeper than the hole: returning there is no safe move
    if xyz(m)['Z'] < (xyz(m)['Z'] + p['R'] + p['Z'] if m.incremental else p['Z']):
        return False
    return True


def expandable(lines):
    """less the lines with cycles that are not supported"""
    m = programs.controller()
    out = []
    for line in lines:
        try:
            codes = m.resolve(model.parse(line))
            if all(supported(c, ahead(m, codes, c)) for c in codes if is_canned(c)):
                after = m.clone()
                after.execute_text(line)
                m = after
                out.append(line)
        except (model.Refused, model.Unsure):
            pass
    return out


def drilling(c, m):
    return geometry.Drilling(c.word, c.params, xyz(m), m.incremental, m.word('canned_cycles_return') == 99.0)


def cover(ctx, c, m, d, retained):
    ctx.state(c.word, m.incremental, m.word('canned_cycles_return'), c.params.get('L'), d.retract > d.start['Z'],
              d.retract < d.start['Z'], 'X' in c.params, 'Y' in c.params, retained)
    ctx.probe('cycle-expanded')
    if retained:
        ctx.probe('cycle-retained')
    if c.params.get('L') is not None:
        ctx.probe('cycle-repeated')


def is_canned(c):
    return c.word[0] == 'G' and c.word[1] in model.CANNED


def execute(scenario, ctx):
    if scenario['kind'] == 'api':
        execute_api(scenario, ctx)
    else:
        execute_script(scenario, ctx)


def execute_api(scenario, ctx):
    from pygcode import transform
    from pygcode.line import Line
    real = history.machine_class('XYZ')()
    ref = model.Machine('XYZ')
    if scenario.get('offset'):
        history.set_offset(real, ref, 1, scenario['offset'])
        history.Runner.op_pos(type('R', (), {'real': real, 'ref': ref})(), dict((a, 0.0) for a in 'XYZ'))
    holes = 0
    for line in scenario['lines']:
        try:
            block = model.parse(line)
            codes = ref.resolve(block)
        except (model.Refused, model.Unsure):
            continue
        rblock = Line(line).block
        rcodes = real.block_modal_gcodes(rblock)
        for (c, g) in zip(codes, rcodes):
            if not is_canned(c) or not supported(c, ref):
                real.process_gcodes(g)
                try:
                    ref.execute_code(c)
                except model.Unsure:
                    return
                continue
            d = drilling(c, ref)
            cover(ctx, c, ref, d, bool(block.left))
            what = '%r at %s, %s %s' % (str(g), d.start, 'G91' if ref.incremental else 'G90', real.mode.canned_cycles_return)
            kw = {'plane': real.mode.plane_selection, 'dist_mode': real.mode.distance,
                  'retract_mode': real.mode.canned_cycles_return, 'axes': real.axes}
            items = transform.simplify_canned_cycle(g, real.pos, **kw)
            trial = ref.clone()
            texts = []
            for s in items:
                text = str(s)
                texts.append(text)
                if len(texts) > 5000:
                    raise Violation('endless', '%s: over 5000 moves' % what)
                real.process_gcodes(s)
                code = (s.word.letter, float(s.word.value))
                try:
                    ev = programs.run_line(trial, text)
                except model.Refused as e:
                    raise Violation('unreadable', '%s yields %r: %s' % (what, text, e))
                if code == ('G', 4.0):
                    bad = d.dwell(dict(observe.code_key(s)[2]).get('P'))
                    if bad:
                        raise Violation('drilling', '%s: move %d: %s; moves: %s' % (what, len(texts), bad, texts[-6:]))
                    continue
                if code not in (('G', 0.0), ('G', 1.0)):
                    raise Violation('not-simple', '%s yields %r' % (what, text))
                to = observe.pos(real.pos)
                bad = d.move(code == ('G', 0.0), to)
                if not bad and not model.pos_close(to, xyz(trial), 1e-6):
                    bad = 'the text %r goes to %s, the move to %s' % (text, xyz(trial), to)
                if bad:
                    raise Violation('drilling', '%s: move %d: %s; moves: %s' % (what, len(texts), bad, texts[-6:]))
                ctx.step()
                ctx.log(text)
            bad = d.end()
            if not bad:
                ref.execute_code(c)
                if not model.pos_close(observe.pos(real.pos), xyz(ref)):
                    bad = 'ends at %s, the cycle itself at %s' % (observe.pos(real.pos), xyz(ref))
            if bad:
                raise Violation('drilling', '%s: %s; moves: %s' % (what, bad, texts[-6:]))
            # stopped on the way: every prefix was checked; go on from a machine that did execute the cycle
            ctx.fault('stop-points', len(texts))
            real.process_gcodes(g, *[])
            fix(real, ref)
            holes += d.hole
    ctx.nontrivial = holes > 0


def fix(real, ref):
    """the cycle was executed twice (expanded, and itself): put the machine where it belongs"""
    from pygcode.machine import Position
    real.pos = Position(axes=real.axes, **ref.work)


def execute_script(scenario, ctx):
    lines = scenario['lines']
    args = scenario['args']
    listed = None
    if '-cc' in args:
        listed = set(('G', float(w[1:])) for w in args[args.index('-cc') + 1].split(','))
    check = programs.controller()
    for line in lines:
        try:
            codes = check.resolve(model.parse(line))
            for c in codes:
                if is_canned(c) and (listed is None or c.word in listed) and not supported(c, ahead(check, codes, c)):
                    return
            check.execute_text(line)
        except (model.Refused, model.Unsure):
            return
    outs = outputs_per_line('pygcode-norm', ['@'] + args, lines, scenario.get('plan'))
    src = programs.controller()
    out = programs.controller()
    holes = 0
    for (line, got) in zip(lines, outs):
        block = model.parse(line)
        codes = src.resolve(block)
        canned = [c for c in codes if is_canned(c) and (listed is None or c.word in listed)]
        want = programs.run_line(src.clone(), line)
        events = []
        for text in got:
            try:
                events += programs.run_line(out, text)
            except model.Refused as e:
                raise Violation('output-refused', '%r (from %r): %s' % (text, line, e))
        ctx.step(len(events))
        what = 'source line %r, norm %s' % (line, ' '.join(args))
        if not canned:
            if len(want) != len(events) or not all(programs.same(a, b) for (a, b) in zip(want, events)):
                raise Violation('other-line', '%s: output does [%s] instead of [%s]' % (
                    what, '; '.join(map(programs.show, events)), '; '.join(map(programs.show, want))))
            src.execute_text(line)
            continue
        c = canned[0]
        k = codes.index(c)
        post = want[k + 1:]
        mid = events[k:len(events) - len(post)]
        if [e[:2] for e in events[:k]] != [e[:2] for e in want[:k]] or [e[:2] for e in events[len(events) - len(post):]] != [e[:2] for e in post]:
            raise Violation('other-codes', '%s: output does [%s] instead of [%s]' % (
                what, '; '.join(map(programs.show, events[:6])), '; '.join(map(programs.show, want))))
        at = ahead(src, codes, c)
        d = drilling(c, at)
        cover(ctx, c, at, d, bool(block.left))
        for e in mid:
            if e[0] == ('G', 4.0):
                bad = d.dwell(dict(e[1]).get('P'))
                if bad:
                    raise Violation('drilling', '%s: %s; output %s' % (what, bad, got[-6:]))
                continue
            if e[0] not in (('G', 0.0), ('G', 1.0)):
                raise Violation('not-simple', '%s: %s' % (what, programs.show(e)))
            bad = d.move(e[0] == ('G', 0.0), dict((a, e[3][a]) for a in 'XYZ'))
            if bad:
                raise Violation('drilling', '%s: %s' % (what, bad))
        bad = d.end()
        if bad:
            raise Violation('drilling', '%s: %s; output %s' % (what, bad, got[-6:]))
        src.execute_text(line)
        if not model.pos_close(src.abs, out.abs):
            raise Violation('drilling', '%s: ends at %s instead of %s' % (what, out.abs, src.abs))
        diff = programs.modes_diff(src, out, skip=('motion',))
        if diff:
            raise Violation('modes', '%s: %s' % (what, '; '.join(diff)))
        holes += d.hole
    ctx.fault('output-cut', sum(len(o) for o in outs))
    ctx.nontrivial = holes > 0


def ahead(m, codes, c):
    """machine m, after the codes before c"""
    m = m.clone()
    for x in codes[:codes.index(c)]:
        m.execute_code(x)
    return m
