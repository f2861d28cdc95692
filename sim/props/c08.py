"""C08 generated code sequences do not depend on how they are consumed"""
from .. import core, gen, history, interrupt, observe, tasks
from ..core import Violation

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ("one run = 2-8 lazily generated sequences (linearised arcs, expanded canned cycles, omission of redundant modes over "
        "codes or over other sequences, words of texts) over 1-3 machines, pulled in an order drawn by the scheduler, "
        "interleaved with machine operations, edits of received items, closes, thrown exceptions and interruptions at any "
        "line; what each yields is compared with consumption at once, in a process of its own; non-trivial: two sequences "
        "open at once, or an edit, fault or machine move between two pulls of one; distinct by scenario content")
REAL = ['pygcode.transform', 'pygcode.utils.omit_redundant_modes', 'pygcode.words.text2words', 'pygcode.machine']
STUB = ['consumers and their schedule (simulated)', 'exceptions (injected)']
MEASURE = 'distinct (kind of sequence, items pulled so far, number of sequences open, what happened since its last pull)'
STEP = 'pulls and operations'


def generate(rng, tier, index):
    nm = rng.randint(1, 3)
    ops = []
    feats = gen.swarm(rng, always=['modal'])
    gens = [gen.Gen(rng, feats, 'XYZ', small=True) for _ in range(nm)]
    n = 0
    pool = []
    for i in range(nm):
        if rng.random() < 0.5:
            ops.append(['start', i, rng.choice(tasks.STARTS)])
    for _ in range(rng.randint(10, 30 if tier == 'quick' else 80)):
        r = rng.random()
        m = rng.randrange(nm)
        if r < 0.16 or n == 0:
            kind = rng.choice(['arc', 'arc', 'drill', 'drill', 'words', 'omit', 'chain', 'chain'])
            if kind == 'arc':
                spec = [rng.choice(tasks.ARCS), rng.choice('iom'), rng.choice([0.02, 0.1, 0.3])]
            elif kind == 'drill':
                spec = [rng.choice(tasks.DRILLS)]
            elif kind == 'chain':
                spec = [rng.choice(tasks.ARCS + tasks.DRILLS), rng.choice('iom'), rng.choice([0.02, 0.1, 0.3])]
            elif kind == 'omit':
                spec = [gens[m].line() for _ in range(rng.randint(2, 8))]
                if pool and rng.random() < 0.5:
                    spec = [rng.choice(pool) for _ in range(rng.randint(2, 8))]
                pool += spec
            else:
                spec = [' '.join(gens[m].line() for _ in range(rng.randint(1, 3)))]
            ops.append(['open', n, kind, m, spec, rng.random() < 0.3])
            n += 1
        elif r < 0.62:
            ops.append(['pull', rng.randrange(max(0, n - 5), n), rng.choice([1, 1, 1, 2, 3, 8])])
        elif r < 0.74:
            ops.append(['edit', rng.randrange(n), rng.randrange(5), rng.choice([0, 1, -4.5, 33])])
        elif r < 0.80:
            ops.append(['feed', rng.randrange(n), m])
        elif r < 0.90:
            ops.append(['exec', m, gens[m].line()])
        elif r < 0.93:
            ops.append(['close', rng.randrange(n)])
        elif r < 0.96:
            ops.append(['throw', rng.randrange(n), rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])])
        else:
            ops.append(['strike', rng.randrange(n), round(rng.random(), 3), rng.choice(['KeyboardInterrupt', 'MemoryError']), rng.random() < 0.4])
    return {'machines': nm, 'ops': ops}


def text(item):
    if hasattr(item, 'params'):
        return '%s | %r | %s' % (item, observe_exact(item), type(item).__name__)
    return '%s %r' % (item, item.value)


def observe_exact(g):
    return (g.word.letter, g.word.value, sorted((k, repr(w.value)) for (k, w) in g.params.items()))


class Stream(object):
    def __init__(self, kind, gen, want):
        self.kind = kind
        self.gen = gen
        self.want = want
        self.got = []
        self.items = []
        self.open = True
        self.since = set()


def close(gen):
    """Abandon a sequence (which needs to be an iterator, not a generator)"""
    if hasattr(gen, 'close'):
        gen.close()


class World(object):
    def __init__(self, scenario, ctx):
        self.ctx = ctx
        self.machines = [history.machine_class('XYZ')() for _ in range(scenario['machines'])]
        self.streams = {}
        self.held = {}      # positions that sequences are started from again and again
        self.parsed = {}    # and codes
        self.shared = []
        self.n = 0
        self.pristine = core.Pristine(self.at_once)

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    def m(self, i):
        return self.machines[i % len(self.machines)]

    def others(self, s, what):
        for x in self.streams.values():
            if x is not s and x.open:
                x.since.add(what)

    # ---- opening
    def build(self, kind, m, spec, pos=None, parsed=None):
        from pygcode.line import Line
        from pygcode.words import text2words
        from pygcode.utils import omit_redundant_modes
        from pygcode import gcodes
        if kind == 'words':
            return text2words(spec[0])
        if kind == 'omit':
            items = []
            for t in spec:
                if parsed is None:
                    items += sorted(Line(t).block.gcodes)
                    continue
                # the same codes for all sequences made of this line
                if ('codes', t) not in parsed:
                    parsed[('codes', t)] = sorted(Line(t).block.gcodes)
                    self.shared += [(g, text(g)) for g in parsed[('codes', t)]]
                items += parsed[('codes', t)]
            return omit_redundant_modes(items)
        if parsed is None:
            parsed = {}
        if spec[0] not in parsed:
            parsed[spec[0]] = Line(spec[0]).block.gcodes[0]
        g = parsed[spec[0]]
        if isinstance(g, gcodes.GCodeArcMove):
            s = tasks.arc_codes(m, g, {'method': spec[1], 'error': spec[2]}, pos)
        else:
            s = tasks.drill_codes(m, g, pos)
        return omit_redundant_modes(s) if kind == 'chain' else s

    def at_once(self, kind, description, spec):
        """consumed in one go, by a process in which nothing else happened"""
        out = []
        try:
            for x in self.build(kind, tasks.another(description), spec):
                out.append(text(x))
                if len(out) > 3000:
                    break
        except Exception as e:
            out.append(tasks.failure(e))
        return out

    def op_open(self, n, kind, i, spec, reuse):
        m = self.m(i)
        description = tasks.describe(m)
        pos = None
        if reuse:
            if i not in self.held:
                self.held[i] = (m.pos, observe.pos(m.pos))
            (pos, description['abs']) = self.held[i]
        want = self.pristine.ask(kind, description, spec)
        if not isinstance(want, list):
            raise core.HarnessError('solo run failed: %r' % (want,))
        try:
            stream = self.build(kind, m, spec, pos, self.parsed if reuse else None)
        except Exception as e:
            # (refused at once, rather than when first pulled)
            if want != [tasks.failure(e)]:
                self.fail('item', 'opening sequence %d (%s): %r; consumed at once: %s' % (n, kind, e, want[:3]))
            return
        self.streams[n] = Stream(kind, stream, want)
        self.streams[n].editable = not (kind == 'omit' and reuse)  # items may be the very codes given to it
        self.ctx.probe('open:' + kind)

    # ---- consuming
    def op_pull(self, n, k):
        s = self.streams.get(n)
        if s is None or not s.open:
            return
        for _ in range(k):
            s.since.discard('pull')
            if s.got and s.since:
                self.ctx.nontrivial = True
            self.ctx.state(s.kind, len(s.got), sum(x.open for x in self.streams.values()), tuple(sorted(s.since)))
            s.since = set()
            self.ctx.step()
            try:
                item = next(s.gen)
            except StopIteration:
                s.open = False
                if len(s.got) < len(s.want):
                    self.fail('ended-early', 'sequence %d (%s) ends after %d items of %d; next: %s' % (
                        n, s.kind, len(s.got), len(s.want), s.want[len(s.got)]))
                return
            except Exception as e:
                s.open = False
                item = None
                t = tasks.failure(e)
            else:
                t = text(item)
            i = len(s.got)
            if len(s.want) > 3000 and i >= 3000:
                s.open = False
                return
            if i >= len(s.want) or s.want[i] != t:
                self.fail('item', 'sequence %d (%s), item %d is\n  %s\nconsumed at once:\n  %s' % (
                    n, s.kind, i, t, s.want[i] if i < len(s.want) else 'the end'))
            s.got.append(t)
            self.ctx.log(n, t)
            if item is not None:
                s.items.append(item)
            else:
                return
        self.others(s, 'pulled-another')

    def op_edit(self, n, how, v):
        s = self.streams.get(n)
        if s is None or not s.items or not s.editable:
            return
        item = s.items[-1 - (how == 4 and len(s.items) > 1)]
        if not hasattr(item, 'params'):
            if item.letter not in 'O':
                item.value = abs(v) if item.letter in 'GMLTN' else v
        elif how in (0, 4) or not item.params:
            if item.param_letters and 'X' in item.param_letters:
                item.X = v
            elif item.param_letters:
                setattr(item, sorted(item.param_letters)[0], v)
        elif how == 1:
            item.params.clear()
        elif how == 2:
            for w in item.params.values():
                w.value = v if w.letter not in 'LTN' else 1
        elif how == 3:
            item.word.value = abs(v) if item.word.letter != 'T' else 3
        self.ctx.fault('edit-item')
        for x in self.streams.values():
            if x.open:
                x.since.add('edit')

    def op_feed(self, n, i):
        s = self.streams.get(n)
        if s is None or not s.items or not hasattr(s.items[-1], 'params'):
            return
        try:
            self.m(i).process_gcodes(s.items[-1])
        except Exception as e:
            if not history.is_documented(e) and not isinstance(e, KeyError):
                raise
        self.others(None, 'machine-moved')

    def op_start(self, i, t):
        self.m(i).process_str(t)

    def op_exec(self, i, t):
        try:
            self.m(i).process_str(t)
        except Exception as e:
            if not history.is_documented(e):
                raise
        self.others(None, 'machine-moved')

    def op_close(self, n):
        s = self.streams.get(n)
        if s is not None and s.open:
            close(s.gen)
            s.open = False
            self.ctx.fault('close')
            self.others(s, 'closed-another')

    def op_throw(self, n, kind):
        s = self.streams.get(n)
        if s is None or not s.open:
            return
        e = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError}[kind]('injected')
        try:
            throw = getattr(s.gen, 'throw', None)  # an iterator need not be a generator
            if throw is not None:
                throw(e)
        except (KeyboardInterrupt, MemoryError, OSError) as x:
            if x is not e:
                raise
        except StopIteration:
            pass
        s.open = False
        self.ctx.fault('throw:' + kind)
        self.others(s, 'failed-another')

    def op_strike(self, n, fraction, kind, opcodes):
        s = self.streams.get(n)
        if s is None or not s.open:
            return
        try:
            (raised, struck, _) = interrupt.strike(lambda: next(s.gen, None), fraction, kind, opcodes, self.ctx)
        except Exception:
            pass
        s.open = False
        close(s.gen)
        self.others(s, 'failed-another')

    def run(self, ops):
        for op in ops:
            self.n += 1
            self.ctx.step()
            getattr(self, 'op_' + op[0])(*op[1:])
            for (g, t) in self.shared:
                if text(g) != t:
                    self.fail('given', 'a code that sequences are made of was %s, and is %s' % (t, text(g)))
        for n in sorted(self.streams):
            self.op_pull(n, 5000)
        self.pristine.close()


def execute(scenario, ctx):
    if scenario['machines'] < 1:
        return
    World(scenario, ctx).run(scenario['ops'])
