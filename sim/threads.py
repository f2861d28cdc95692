"""
Deterministic thread scheduler: real threads running real library code, of which
exactly one runs at a time; it may be preempted before any line (or bytecode) of
library code.  Which one runs next is decided by a seeded policy, or replayed from
a list of preemptions.
"""
import random
import sys
import threading
import _thread

from . import core, locks


class Deadlock(Exception):
    pass


class Scheduler(object):
    def __init__(self, n, plan, ctx):
        self.n = n
        self.ctx = ctx
        self.opcodes = bool(plan.get('opcodes'))
        self.points = 0             # preemption points passed
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.done = [False] * n
        self.idents = {}
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.taken = []             # 'point:thread', preemptions that happened
        self.where = [None] * n
        self.stalled = 0
        self.limit = plan.get('limit', 2000000)
        self.replay = None
        self.now = None
        if 'switches' in plan:
            self.replay = {}
            for s in plan['switches']:
                (k, t) = s.split(':')
                self.replay[int(k)] = int(t)
        else:
            self.rng = random.Random(plan['seed'])
            self.p = plan['p']
            self.priority = None
            if plan['policy'] == 'priority':
                # the highest priority runs; priorities drop at a few random points
                self.priority = list(range(n))
                self.rng.shuffle(self.priority)
                self.changes = set(self.rng.randrange(plan['horizon']) for _ in range(plan['depth']))

    # ---- decisions
    def runnable(self):
        return [i for i in range(self.n) if not self.done[i]]

    def choose(self, me, must):
        """thread to run next (me: keep going)"""
        others = [i for i in self.runnable() if i != me]
        if not others:
            return me
        if self.replay is not None:
            t = self.replay.get(self.points)
            if t in others:
                return t
            return others[0] if must else me
        if self.priority is not None:
            if self.points in self.changes:
                self.priority[me] = min(self.priority) - 1
            best = max(others + ([] if must else [me]), key=lambda i: self.priority[i])
            return best
        if must or self.rng.random() < self.p:
            return self.rng.choice(others)
        return me

    def point(self, me, frame):
        self.points += 1
        if self.points > self.limit:
            raise core.StepBudget()
        self.stalled = 0
        t = self.choose(me, False)
        if t != me:
            self.where[me] = (frame.f_code.co_name, frame.f_lineno)
            self.ctx.state(self.where[me], self.where[t])
            self.switch(me, t)

    def switch(self, me, t):
        self.taken.append('%d:%d' % (self.points, t))
        self.now = t
        self.gates[t].release()
        self.gates[me].acquire()

    # ---- locks taken by library code
    def is_mine(self):
        return self.idents.get(_thread.get_ident()) == self.now and self.now is not None

    def blocked(self):
        me = self.idents[_thread.get_ident()]
        self.points += 1
        self.stalled += 1
        if self.stalled > 200 * self.n or len(self.runnable()) == 1:
            return False
        run = self.runnable()
        self.switch(me, run[(run.index(me) + 1) % len(run)])
        return True

    def deadlock(self):
        return Deadlock("every thread waits for a lock")

    # ---- running
    def tracer(self, me):
        src = core.SRC

        def local(frame, event, arg):
            if event == 'opcode' or (event == 'line' and not self.opcodes):
                self.point(me, frame)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(src):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return trace

    def body(self, me, job, results):
        self.gates[me].acquire()
        sys.settrace(self.tracer(me))
        try:
            results[me] = job()
        except BaseException as e:      # job() handles library errors: this is ours
            results[me] = e
        finally:
            sys.settrace(None)
            self.points += 1
            self.done[me] = True
            run = self.runnable()
            if run:
                t = self.choose(me, True)
                self.taken.append('%d:%d' % (self.points, t))
                self.now = t
                self.gates[t].release()
            else:
                self.finished.release()

    def run(self, jobs):
        results = [None] * self.n
        threads = [threading.Thread(target=self.body, args=(i, jobs[i], results), daemon=True) for i in range(self.n)]
        started = []
        for (i, t) in enumerate(threads):
            t.start()
            self.idents[t.ident] = i
            started.append(t)
        locks.scheduler = self
        first = self.choose(-1, True)
        self.taken.append('0:%d' % first)
        self.now = first
        self.gates[first].release()
        self.finished.acquire()
        locks.scheduler = None
        for t in threads:
            t.join()
        for r in results:
            if isinstance(r, BaseException):
                raise r
        return results
