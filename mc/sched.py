"""A controlled scheduler for real threads.

Exactly one thread runs at a time.  At every scheduling point (each opcode or
line of the traced code, and each step of a thread's program) the schedule
decides whether another thread goes on instead.  A schedule is a list of
[point number, thread] switches; without one the running thread goes on.
"""
import sys
import threading

from mc import lib


SEEN = set()
CACHE = {}         # code object -> whether it is traced


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, programs, schedule, order, traced, opcodes, after=()):
        """*programs*: functions of the scheduler; *schedule*: {point:
        thread}; *order*: preference when a thread ends; *traced*: predicate
        on code objects; *after*: {thread: thread that must end before}."""
        self.programs = programs
        self.schedule = dict(schedule)
        self.order = order
        self.traced = traced
        self.opcodes = opcodes
        self.after = dict(after)
        self.locks = [threading.Lock() for p in programs]
        for l in self.locks:
            l.acquire()
        self.n = 0                  # scheduling points so far
        self.running = None
        self.finished = [False] * len(programs)
        self.started = [False] * len(programs)
        self.threads = [None] * len(programs)
        self.log = []               # (point, running, enabled) per point
        self.where = []             # position of each point
        self.errors = []
        self.done = threading.Event()
        self.cache = CACHE

    def enabled(self):
        return [i for i in range(len(self.programs)) if not self.finished[i]
                and (i not in self.after or self.finished[self.after[i]])]

    def run(self, timeout=60):
        first = next(i for i in self.order if i in self.enabled())
        self.go(first)
        if not self.done.wait(timeout):
            raise Deadlock('threads did not finish')
        for t in self.threads:
            if t is not None:
                t.join(timeout)
        if self.errors:
            raise self.errors[0]

    def go(self, i):
        self.running = i
        if not self.started[i]:
            self.started[i] = True
            if i in self.after:
                # really ended, so that its identifier may be used again
                self.threads[self.after[i]].join(30) \
                    if self.threads[self.after[i]] is not \
                    threading.current_thread() else None
            self.threads[i] = threading.Thread(target=self.main, args=(i,))
            self.threads[i].daemon = True
            self.threads[i].start()
        else:
            self.locks[i].release()

    def main(self, i):
        try:
            sys.settrace(self.trace)
            try:
                self.programs[i](self)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors.append(e)
        self.finished[i] = True
        rest = self.enabled()
        if not rest:
            self.done.set()
            return
        nxt = self.schedule.get(('end', i))
        if nxt is None or nxt not in rest:
            nxt = next(j for j in self.order if j in rest)
        if nxt in self.after and self.after[nxt] == i \
                and not self.started[nxt]:
            # started from outside so that this thread can end first
            helper = threading.Thread(target=self.go, args=(nxt,))
            helper.daemon = True
            helper.start()
        else:
            self.go(nxt)

    def point(self, pos):
        i = self.running
        n = self.n
        self.n += 1
        self.log.append((i, [j for j in self.enabled() if j != i]))
        self.where.append(pos)
        nxt = self.schedule.get(n)
        if nxt is None or nxt == i or nxt not in self.enabled():
            return
        self.go(nxt)
        self.locks[i].acquire()

    # tracing

    def trace(self, frame, event, arg):
        code = frame.f_code
        t = self.cache.get(code)
        if t is None:
            t = self.cache[code] = bool(self.traced(code))
        if not t:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self.point((code.co_name, 'call'))
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            self.point((frame.f_code.co_name, frame.f_lasti))
        elif event == 'line' and not self.opcodes:
            self.point((frame.f_code.co_name, frame.f_lineno))
        return self.local


def explore(make, check, bound, rec, nthreads, case, traced, opcodes,
            after=(), orders=None, state=None):
    """All schedules of the programs with at most *bound* preemptions.

    make() -> programs and context; check(context, scheduler) -> complaint.
    """
    import itertools
    if orders is None:
        orders = list(itertools.permutations(range(nthreads)))
    count = 0
    for order in orders:
        stack = [{}]
        while stack:
            schedule = stack.pop()
            msg, s = run_one(make, check, schedule, order, rec, case, traced,
                             opcodes, after, state)
            count += 1
            used = [k for k in schedule if isinstance(k, int)]
            if len(used) >= bound:
                continue
            start = max(used) + 1 if used else 0
            for n in range(start, len(s.log)):
                for j in s.log[n][1]:
                    stack.append(dict(schedule, **{}) | {n: j})
    return count


def run_one(make, check, schedule, order, rec, case, traced, opcodes, after,
            state=None):
    programs, context = make()
    c = dict(case, schedule=sorted(schedule.items()), order=list(order))
    rec.case(c)
    s = Scheduler(programs, schedule, order, traced, opcodes, after)
    s.run()
    rec.step(s.n)
    msg = check(context, s)
    if state is not None:
        for k in state(context, s):
            if k not in SEEN:
                SEEN.add(k)
                rec.state(repr(k))
    if msg:
        rec.violation(msg, c, fingerprint=msg.split(':')[0])
    rec.trace(None, c)
    return msg, s


__all__ = ['Scheduler', 'explore', 'run_one', 'lib']
