"""Asynchronous exceptions: raised before a chosen line or bytecode of library code"""
import sys

from . import core


class Interrupter(object):
    def __init__(self, at, exc, opcodes=False):
        self.at = at            # event number before which it strikes; None: only count
        self.exc = exc
        self.opcodes = opcodes
        self.events = 0
        self.struck = None      # place
        self.places = None      # {place: [first event, last event]}, when told to note them

    def local(self, frame, event, arg):
        if event == 'opcode' or (event == 'line' and not self.opcodes):
            self.events += 1
            if self.places is not None:
                place = (frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lineno or 0, frame.f_lasti if self.opcodes else 0)
                self.places.setdefault(place, [self.events, 0])[1] = self.events
            if self.events == self.at:
                self.struck = (frame.f_code.co_name, frame.f_lineno, frame.f_lasti)
                raise self.exc('injected')
        return self.local

    def trace(self, frame, event, arg):
        if self.struck is None and frame.f_code.co_filename.startswith(core.SRC):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def call(self, func):
        """(result, exception that ended it)"""
        sys.settrace(self.trace)
        try:
            return (func(), None)
        except (KeyboardInterrupt, MemoryError) as e:
            if self.struck is None:
                raise
            return (None, e)
        finally:
            sys.settrace(None)


class Rehearsed(BaseException):
    """carries what rehearse() found"""
    def __init__(self, rehearsed):
        BaseException.__init__(self, 'rehearsed')
        self.rehearsed = rehearsed


def rehearse(func, opcodes, interrupter=Interrupter):
    """[number of events, [first event, last event] of each place, grouped by function]"""
    i = interrupter(None, None, opcodes)
    i.places = {}
    try:
        i.call(func)
    except Exception:
        pass
    functions = {}
    for (place, visits) in sorted(i.places.items()):
        functions.setdefault(place[:2], []).append(visits)
    return [i.events, [functions[f] for f in sorted(functions)]]


def choose(rehearsed, fraction, by):
    """
    the event to strike at: at that fraction of the events (by = 'event'), of the places
    visited ('first', 'last': visit), or of the functions entered ('function': the rest of
    the fraction tells which of its places)
    """
    (events, functions) = rehearsed
    if by == 'event' or not functions:
        return 1 + int(fraction * events)
    if by == 'function':
        f = fraction * len(functions)
        places = functions[min(len(functions) - 1, int(f))]
        return places[min(len(places) - 1, int((f - int(f)) * len(places)))][0]
    places = [x for f in functions for x in f]
    return places[min(len(places) - 1, int(fraction * len(places)))][0 if by == 'first' else 1]


def strike(func, fraction, kind, opcodes, ctx, by='event'):
    """
    Call func, interrupting it where choose() says, after a rehearsal in a forked process; or
    (by = 'at') at that event.  (interrupted?, was the exception raised?, result)
    """
    if by == 'rehearse':
        raise Rehearsed(rehearse(func, opcodes))
    if by == 'at':
        at = fraction
        n = 0
    else:
        rehearsed = core.finished(core.forked(lambda: rehearse(func, opcodes), core.RUN_WALL))
        if not isinstance(rehearsed, list):
            raise core.HarnessError('rehearsal failed: %r' % (rehearsed,))
        at = choose(rehearsed, fraction, by)
        n = rehearsed[0]
    i = Interrupter(at, {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[kind], opcodes)
    (result, e) = i.call(func)
    ctx.step(i.events)
    if i.struck:
        ctx.fault('interrupt:' + kind)
        ctx.probe('at-bytecode' if opcodes else 'at-line')
        ctx.probe('by-' + by)
        ctx.state(i.struck)
        ctx.extra['struck'] = i.struck[:2]
        ctx.log('struck', i.struck[:2], at, n)
    return (e is not None, i.struck is not None, result)
