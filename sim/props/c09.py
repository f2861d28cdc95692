"""C09 cropping a program at the point of interruption"""
from .. import gen, model, programs, scriptsim
from ..core import Violation

RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ("one run = one program of 4-30 lines interrupted at a random line; pygcode-crop's output resumes it on a "
        "simulated controller in its default state (the library's defaults, or others); the resumed program is interrupted again at random lines (in its "
        "preamble too), up to 4 times; every resumption is compared line by line with the uninterrupted execution; "
        "non-trivial: at least one resumption with a motion after it; distinct by scenario content")
REAL = ['scripts/pygcode-crop (whole script)', 'pygcode parser, gcodes, blocks, machine']
STUB = ['power failures (simulated: lines cut)', 'file system, standard streams (simulated)',
        'the controller resuming the program (reference model)']
MEASURE = 'distinct (modes restored, number of interruptions) combinations'
ASSUMPTIONS = ['coordinate offsets of the controller are zero, as pygcode-crop assumes',
               'program stops (M0, M1, M2...) are not modes to restore; G43.2 adds up and is not generated']

AXES = 'XYZABC'
# defaults a controller may have, where nothing that positions are given in differs
DEFAULTS = ['G0 G54 G17 G20 G90 G95 M3 M7 T4 F120 S8000', 'G1 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0 G61 G43 H2 G98', 'G0 G17 G90',
            'G1 G55 G17 G20 G90 G93 F2 G96 S50 D10 M4 M8 G41 D1 M49', '']


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['modal', 'misc', 'sticky'] if rng.random() < 0.5 else ['modal'])
    axes = rng.choice(['XYZ', 'XYZ', 'XYZA', 'XYZABC'])
    g = gen.Gen(rng, feats + (['uv'] if rng.random() < 0.1 else []) + (['othermotion'] if rng.random() < 0.3 else []),
                axes, machine=model.Machine(AXES, default_mode=[]))
    n = rng.randint(4, 14 if tier == 'quick' else 30)
    lines = g.program(n)
    if rng.random() < 0.1:
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(['M0', 'M1', 'M60']))
    k = rng.choice([1, 1, 1, 2, 2, 3, 4])
    # each interruption: a fraction of the lines of the program of that moment
    cuts = [round(rng.random(), 4) if rng.random() < 0.8 else round(rng.random() * 0.3, 4) for _ in range(k)]
    s = {'lines': lines, 'cuts': cuts, 'plan': scriptsim.random_plan(rng, 400)}
    if rng.random() < 0.4:
        s['default'] = rng.choice(DEFAULTS)
    return s


def simpler(s):
    if s.get('plan'):
        yield dict(s, plan={})
    if 'default' in s:
        yield dict((k, v) for (k, v) in s.items() if k != 'default')
    for (i, c) in enumerate(s['cuts']):
        for c2 in (0.0, 0.5, 0.99):
            if c2 < c:
                yield dict(s, cuts=s['cuts'][:i] + [c2] + s['cuts'][i + 1:])


def history_of(lines, default):
    """[(machine before the line, events)] + final machine; None if not executable"""
    m = programs.controller(default, AXES)
    out = []
    for line in lines:
        before = m.clone()
        try:
            ev = programs.run_line(m, line)
        except (model.Refused, model.Unsure):
            return (None, None)
        out.append((before, ev))
    return (out, m)


def check_resume(source, at, cropped, default, ctx):
    """
    cropped: lines of the program cropped from source[at:]; executed on a machine in
    default state, it must restore, then do as source did
    """
    (full, end) = history_of(source, default)
    before = full[at][0]
    kept = len(source) - at
    if len(cropped) < kept:
        raise Violation('lines-lost', 'cropped at line %d of %d: only %d lines come out' % (at + 1, len(source), len(cropped)))
    (preamble, rest) = (cropped[:len(cropped) - kept], cropped[len(cropped) - kept:])
    m = programs.controller(default, AXES)

    # --- restoring
    normal = model.PLANE_NORMAL.get(before.plane)
    top = before.hi[normal or 'Z']
    # what the tool knows: lines cut, starting from the origin
    for (i, line) in enumerate(preamble):
        try:
            events = programs.run_line(m, line)
        except (model.Refused, model.Unsure) as e:
            raise Violation('preamble-refused', 'preamble line %d %r: %s' % (i + 1, line, e))
        for ev in events:
            (word, _, start, stop) = ev
            moved = [a for a in AXES if not model.close(start[a], stop[a])]
            if word[0] == 'G' and word != ('G', 0.0) and (word[1] in (1.0, 2.0, 3.0, 33.0, 33.1) or word[1] in model.CANNED
                                                          or 38.0 <= word[1] < 39 or 5.0 <= word[1] < 6 or word[1] == 80.0):
                raise Violation('preamble-works', 'preamble line %d %r does work: %s' % (i + 1, line, programs.show(ev)))
            if word in (('M', 0.0), ('M', 1.0), ('M', 2.0), ('M', 30.0), ('M', 60.0)):
                raise Violation('preamble-stops', 'preamble line %d %r stops the program' % (i + 1, line))
            if not moved or normal is None:
                continue
            across = [a for a in moved if a != normal]
            if across and not (model.close(start[normal], top) and model.close(stop[normal], top)):
                raise Violation('preamble-path', 'preamble line %d %r moves across at %s%g, highest level is %g' % (
                    i + 1, line, normal, stop[normal], top))
            if normal in moved and stop[normal] < start[normal]:
                # going down: only above the place to resume from
                for a in AXES:
                    if not model.close(stop[a], before.abs[a]):
                        raise Violation('preamble-path', 'preamble line %d %r goes down elsewhere: %s' % (i + 1, line, programs.show(ev)))
    d = programs.modes_diff(m, before, skip=('motion', 'stopping'))
    if d:
        raise Violation('modes-not-restored', 'resuming at line %d %r: %s' % (at + 1, source[at], '; '.join(d)))
    if not model.pos_close(m.abs, before.abs):
        raise Violation('position-not-restored', 'resuming at line %d %r: at %s instead of %s' % (
            at + 1, source[at], m.abs, before.abs))
    ctx.state(tuple(sorted((g, v) for (g, v) in m.modes().items() if v)))

    # --- and going on as if never interrupted
    motion = False
    stopped = False
    for (i, line) in enumerate(rest):
        (ref, events) = full[at + i]
        try:
            got = programs.run_line(m, line)
        except (model.Refused, model.Unsure) as e:
            raise Violation('resumed-refused', 'resumed line %r (source %r): %s' % (line, source[at + i], e))
        if len(got) != len(events) or not all(programs.same(a, b) for (a, b) in zip(got, events)):
            raise Violation('resumed-differs', 'line %d %r resumed as %r does [%s] instead of [%s]' % (
                at + i + 1, source[at + i], line, '; '.join(programs.show(e) for e in got),
                '; '.join(programs.show(e) for e in events)))
        for ev in events:
            if ev[0][0] == 'G':
                spec = model.CODES.get(ev[0])
                if spec is not None and (spec.group == 'motion' or ev[0] == ('G', 80.0)):
                    motion = True
            if ev[0] in (('M', 0.0), ('M', 1.0), ('M', 2.0), ('M', 30.0), ('M', 60.0)):
                stopped = True
        after = full[at + i + 1][0] if at + i + 1 < len(full) else end
        d = programs.modes_diff(m, after, skip=(() if motion else ('motion',)) + (() if stopped else ('stopping',)))
        if d:
            raise Violation('resumed-modes', 'after resumed line %r (source line %d): %s' % (line, at + i + 1, '; '.join(d)))
    if not model.pos_close(m.abs, end.abs):
        raise Violation('end', 'ends at %s instead of %s' % (m.abs, end.abs))
    ctx.step(len(rest))
    return motion


def execute(scenario, ctx):
    source = scenario['lines']
    default = scenario.get('default')
    if default is None:
        default = ' '.join(model.DEFAULT_MODE)
    else:
        ctx.probe('other-defaults')
    for cut in scenario['cuts']:
        if not source or history_of(source, default)[0] is None or history_of(source, '')[0] is None:
            ctx.probe('skipped')
            return
        at = min(len(source) - 1, int(cut * len(source)))
        ctx.fault('power-failure')
        text = ''.join(line + '\n' for line in source)
        res = scriptsim.run('pygcode-crop', ['@', '%d:' % (at + 1)], text, scenario.get('plan'))
        scriptsim.count(ctx, res)
        ctx.log('crop', at, repr(res.out), res.status)
        if res.status != 0:
            raise Violation('failed', 'crop %d: of %d lines ends with status %s: %s' % (at + 1, len(source), res.status, res.err[-400:]))
        if check_resume(source, at, res.lines, default, ctx):
            ctx.nontrivial = True
        ctx.probe('resumed')
        source = res.lines
        ctx.probe('generation-%d' % ctx.probes['resumed'])
