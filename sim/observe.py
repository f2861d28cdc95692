"""What the real pygcode objects say, in the reference model's terms (public API only)"""
import functools

from . import model


class Odd(Exception):
    """A real object is not what its public interface promises"""


def observing(func):
    """whatever goes wrong while looking at an object is the object's fault, not the observer's"""
    @functools.wraps(func)
    def inner(*args, **kwargs):
        try:
            return func(*args, **kwargs)
        except Odd:
            raise
        except Exception as e:
            raise Odd('%s of %s: %s: %s' % (func.__name__, type(args[0]).__name__, type(e).__name__, e))
    return inner


@observing
def word_key(w):
    v = w.value
    if w.letter == 'O':
        return ('O', str(v))
    return (w.letter, model.num(v))


@observing
def code_key(g):
    (letter, value) = word_key(g.word)
    params = []
    for (k, w) in g.params.items():
        if w.letter != k:
            raise Odd("parameter %r stored as %r" % (w, k))
        params.append(word_key(w))
    return (letter, value, tuple(sorted(params)))


@observing
def modes(machine):
    out = {}
    for name in model.GROUPS:
        g = getattr(machine.mode, name)
        out[name] = None if g is None else code_key(g)
    listed = sorted(code_key(g) for g in machine.mode.gcodes)
    if listed != sorted(v for v in out.values() if v is not None):
        raise Odd("mode.gcodes %r differs from the groups %r" % (listed, out))
    return out


@observing
def pos(p):
    return dict((a, float(getattr(p, a))) for a in p.axes)


@observing
def pos_in(p, axes):
    return dict((a, float(getattr(p, a))) for a in axes)


@observing
def set_offset(machine, n, values):
    """of coordinate system n; the temporary one if n is None"""
    (machine.state.offset if n is None else machine.state.coord_systems[n].offset).update(**values)


@observing
def state(machine):
    axes = machine.abs_pos.axes
    return {
        'modes': modes(machine),
        'abs': pos(machine.abs_pos),
        'pos': pos(machine.pos),
        'lo': pos_in(machine.abs_range_min, axes),
        'hi': pos_in(machine.abs_range_max, axes),
        'offsets': dict((i, pos(cs.offset)) for (i, cs) in machine.state.coord_systems.items()),
        'temp': pos(machine.state.offset),
        'cs': machine.state.cur_coord_sys,
        'unit': machine.abs_pos.unit,
    }


@observing
def fresh():
    """a position made without saying anything"""
    from pygcode.machine import Position
    p = Position()
    return '%s %s %s' % (''.join(sorted(p.axes)), p.unit, sorted(p.values.items()))


FRESH = 'ABCUVWXYZ 1 %s' % [(a, 0.0) for a in 'ABCUVWXYZ']


def model_state(m):
    return {
        'modes': m.modes(),
        'abs': dict(m.abs),
        'pos': m.work,
        'lo': dict(m.lo),
        'hi': dict(m.hi),
        'offsets': dict((i, dict(d)) for (i, d) in m.offsets.items()),
        'temp': dict(m.temp),
        'cs': m.cs,
    }


def diff(a, b, tol=1e-6, keys=None):
    """List of differences between 2 states ('' when equal); modes exactly, numbers within tol"""
    out = []
    for k in (keys or sorted(set(a) & set(b))):
        (x, y) = (a[k], b[k])
        if k == 'modes':
            for g in sorted(x):
                if x[g] != y[g]:
                    out.append('%s: %s != %s' % (g, x[g], y[g]))
        elif k == 'offsets':
            if set(x) != set(y):
                out.append('coordinate systems: %s != %s' % (sorted(x), sorted(y)))
            for i in sorted(set(x) & set(y)):
                if not model.pos_close(x[i], y[i], tol):
                    out.append('offset %s: %s != %s' % (i, fmt(x[i]), fmt(y[i])))
        elif isinstance(x, dict):
            if not model.pos_close(x, y, tol):
                out.append('%s: %s != %s' % (k, fmt(x), fmt(y)))
        elif x != y:
            out.append('%s: %r != %r' % (k, x, y))
    return out


def fmt(p):
    return ' '.join('%s%.9g' % (a, p[a]) for a in sorted(p))


def text_of_state(s):
    """Canonical text (exact, for fingerprints)"""
    out = []
    for k in sorted(s):
        v = s[k]
        if k == 'modes':
            v = sorted(v.items())
        elif k == 'offsets':
            v = sorted((i, sorted(d.items())) for (i, d) in v.items())
        elif isinstance(v, dict):
            v = sorted(v.items())
        out.append('%s=%r' % (k, v))
    return ';'.join(out)
