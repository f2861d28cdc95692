"""Programs as a simulated controller executes them (reference model)"""
from . import model

NORM_MODE = 'G0 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0'
NORM_MODES = [
    NORM_MODE, NORM_MODE, NORM_MODE,
    'G1 G55 G18 G20 G91 G95 M3 M8 T1 F100 S50', 'G0', '', 'G0 G17 G91', 'G1 F50 G99 G90.1', 'G0 G43 H2 G41 D3 G96 D500 S20 G64 P0.1',
]


def controller(mode=NORM_MODE, axes='XYZ'):
    return model.Machine(axes, default_mode=[mode] if mode else [])


def event(c, start, end):
    return (c.word if c.word[0] == 'O' else (c.word[0], model.num(c.word[1])),
            tuple(sorted((k, model.num(v)) for (k, v) in c.params.items())), start, end)


def run_line(m, text):
    """[event] of one line"""
    trace = []
    m.execute_text(text, trace)
    return [event(x[1], x[2], x[3]) for x in trace if x[0] == 'code']


def macro(text):
    """what a line's macro does, if it has one (after the line's commands)"""
    m = model.split_line(text)[3]
    return [(('%', m.strip()), (), {}, {})] if m else []


def show(ev):
    ((letter, value), params, start, end) = ev
    return '%s%s%s -> %s' % (letter, value, ''.join(' %s%s' % p for p in params),
                             ' '.join('%s%.6g' % x for x in sorted(end.items())))


def same(a, b, tol=1e-6):
    """same command, with the same effect on position"""
    if a[0][0] != b[0][0] or (a[0][1] != b[0][1]):
        return False
    if len(a[1]) != len(b[1]):
        return False
    for ((k, v), (l, w)) in zip(a[1], b[1]):
        if k != l or not model.close(v, w, tol):
            return False
    return model.pos_close(a[2], b[2], tol) and model.pos_close(a[3], b[3], tol)


def modes_diff(a, b, skip=()):
    (x, y) = (a.modes(), b.modes())
    return ['%s: %s != %s' % (g, x[g], y[g]) for g in sorted(x) if g not in skip and x[g] != y[g]]
