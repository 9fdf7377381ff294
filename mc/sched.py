"""Controlled scheduler for real Python threads (stateless model checking of the implementation).

All threads run one at a time.  A scheduling point is a 'line' event (sys.settrace) in a file of the code under test;
there the running thread consults the schedule: either it goes on, or it parks and another runnable thread is woken.
Threads that the code under test starts itself become controlled too (threading.Thread.start/join are replaced while an
execution is under control).

Every scheduling point, and every moment the running thread ends or waits, is a decision; by default the running thread
goes on, or else the lowest runnable one.  A schedule is a list of (decision number, thread) overrides.  explore()
enumerates every schedule with at most `bound` preemptions; choices among threads when the running one ended are free.
"""
import sys
import threading
import time

_real_start = threading.Thread.start
_real_join = threading.Thread.join
_wall = time.monotonic


class Stuck(Exception):
    """The execution did not end (deadlock or endless loop)."""


class _Abort(BaseException):
    pass


class Execution:

    def __init__(self, bodies, files, schedule=(), max_steps=200000, wait=10.0, opcodes=False, patience=4):
        self.files = files
        self.opcodes = opcodes  # scheduling points at every bytecode instruction instead of every line
        self.switch = dict(schedule)  # decision number -> thread id
        self.max_steps = max_steps
        self.wait = wait
        self.patience = patience  # samples in which a thread must be found asleep to be taken for blocked
        self.native = {}  # id -> thread id of the system
        self.log = []  # per decision: (running thread or None, tuple of threads it could choose from, chosen)
        self.results = {}
        self.errors = {}
        self.threads = {}  # id -> state
        self.locks = {}
        self.waiting = {}  # id -> id it joins
        self.ids = {}  # ident -> id
        self.done_evt = threading.Event()
        self.mutex = threading.Lock()
        self.dead = False
        self.blocked = set()  # threads that seem to wait for a real lock
        self.contended = False
        self.free = False  # the given threads have ended; what the code still runs is let go
        self.n = 0
        self.pending = [(self._new(), b) for b in bodies]
        self.current = None

    def _new(self):
        i = self.n
        self.n += 1
        self.threads[i] = 'new'
        lk = threading.Lock()
        lk.acquire()
        self.locks[i] = lk
        return i

    # ---- running
    def run(self):
        threading.Thread.start = _controlled_start
        threading.Thread.join = _controlled_join
        global _ACTIVE
        _ACTIVE = self
        try:
            for i, b in self.pending:
                self._launch(i, b)
            first = self._choose_free()
            self._wake(first)
            ended = self._monitor()
        finally:
            _ACTIVE = None
            threading.Thread.start = _real_start
            threading.Thread.join = _real_join
        self.free = True
        if ended:
            for i, lk in self.locks.items():
                if self.threads[i] != 'done':
                    try:
                        lk.release()
                    except RuntimeError:
                        pass
        if not ended:
            self.dead = True
            for lk in self.locks.values():
                try:
                    lk.release()
                except RuntimeError:
                    pass
            raise Stuck('threads still alive: %s' % [i for i, s in self.threads.items() if s != 'done'])
        return self

    def _monitor(self):
        """Waits for the end.  A thread that makes no progress because it sleeps is taken to be blocked in a real lock
        that a parked thread holds: another one is woken meanwhile.  A thread that is only slow, or waits for a
        processor, is left alone."""
        seen, since = -1, _wall()
        asleep, last = 0, None
        while not self.done_evt.wait(0.02):
            n = len(self.log)
            now = _wall()
            cur = self.current
            what = self._used(cur)
            asleep = asleep + 1 if n == seen and what is not None and what == last else 0
            last = what
            if n != seen:
                seen, since = n, now
                continue
            if what is None or asleep < self.patience:
                # it works, or has not slept for long
                if what is None and now - since < 6 * self.wait:
                    continue
                if now - since > self.wait:
                    return False
                continue
            with self.mutex:
                cur = self.current
                if cur is not None and self.threads.get(cur) == 'ready' and cur not in self.blocked:
                    self.blocked.add(cur)
                    self.contended = True
                    nxt = [i for i in self._runnable() if i not in self.blocked]
                    self.current = None
                    if nxt:
                        self._wake(nxt[0])
                        since = now
            if now - since > self.wait:
                return False
        return True

    def _used(self, i):
        """None if the thread runs or waits for a processor, else the processor time it has used"""
        tid = self.native.get(i)
        if tid is None:
            return ('no thread',) if i is None else None
        try:
            with open('/proc/self/task/%d/stat' % tid) as f:
                parts = f.read().rsplit(')', 1)[1].split()
            if parts[0] == 'R':
                return None
            return i, time.clock_gettime((~tid << 3) | 6)  # the thread's own clock
        except (OSError, IndexError):
            return i, 'unknown'

    def _launch(self, i, body):
        t = threading.Thread(target=self._thread_main, args=(i, body), daemon=True)
        self.threads[i] = 'ready'
        _real_start(t)
        return t

    def _thread_main(self, i, body):
        self.ids[threading.get_ident()] = i
        self.native[i] = threading.get_native_id()
        self._park(i)
        sys.settrace(self._tracer)
        try:
            try:
                self.results[i] = body()
            finally:
                sys.settrace(None)
        except _Abort:
            return
        except BaseException as e:  # noqa - an observation
            self.errors[i] = e
        self._finished(i)

    def _park(self, i):
        self.locks[i].acquire()
        if self.dead:
            raise _Abort()

    def _wake(self, i):
        self.current = i
        try:
            self.locks[i].release()
        except RuntimeError:  # it runs already
            pass

    def _runnable(self, but=None):
        out = []
        for i in sorted(self.threads):
            if i == but or self.threads[i] != 'ready' or i in self.blocked:
                continue
            w = self.waiting.get(i)
            if w is not None and self.threads.get(w) != 'done':
                continue
            out.append(i)
        return tuple(out)

    def _choose_free(self, but=None):
        r = self._runnable(but)
        if not r:
            return None
        c = self.switch.get(len(self.log), r[0])
        if c not in r:
            c = r[0]
        self.log.append((None, r, c))
        return c

    def _finished(self, i):
        with self.mutex:
            was_blocked = i in self.blocked
            self.blocked.discard(i)
            self.threads[i] = 'done'
            if was_blocked and self.current is not None:
                # another thread is running
                if all(self.threads[i] == 'done' for i, _ in self.pending):
                    self.done_evt.set()
                return
            self.current = None
        if self.free:
            return
        if all(self.threads[i] == 'done' for i, _ in self.pending):
            self.done_evt.set()
            return
        nxt = self._choose_free()
        if nxt is not None:
            self._wake(nxt)
        # otherwise: deadlock, run() times out

    # ---- scheduling points
    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.files):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point()
        return self._local

    def point(self):
        if self.free:
            return
        i = self.ids[threading.get_ident()]
        if i in self.blocked:
            with self.mutex:
                self.blocked.discard(i)
                alone = self.current is None
                if alone:
                    self.current = i
            if not alone:
                self._park(i)
        others = self._runnable(but=i)
        to = self.switch.get(len(self.log), i)
        if to not in others:
            to = i
        self.log.append((i, others, to))
        if len(self.log) > self.max_steps:
            raise Stuck('more than %d steps' % self.max_steps)
        if to != i:
            self._wake(to)
            self._park(i)

    def timed_out(self, i, target):
        """A join with a time limit: whether the limit passes before the other thread ends is a choice (a preemption)."""
        if self.threads.get(target) == 'done' or self.free:
            return False
        c = self.switch.get(len(self.log), i)
        self.log.append((i, ('timeout',), c))
        return c == 'timeout'

    def join(self, i, target):
        with self.mutex:
            resumed = i in self.blocked  # it was waiting for a real lock and went on by itself
            self.blocked.discard(i)
            others = resumed and self.current is not None
            if resumed and not others:
                self.current = i
            if self.threads.get(target) == 'done':
                ended = True
            else:
                ended = False
                self.waiting[i] = target
        if ended:
            if others:
                self._park(i)
            return
        if not others:
            nxt = self._choose_free(but=i)
            if nxt is not None:
                self._wake(nxt)
            else:
                self.current = None
        self._park(i)
        self.waiting.pop(i, None)


_ACTIVE = None


def _controlled_start(t):
    ex = _ACTIVE
    me = ex.ids.get(threading.get_ident()) if ex else None
    if me is None:
        return _real_start(t)
    i = ex._new()
    t._mc_id = i
    run = t.run
    ex.threads[i] = 'ready'
    real_target = lambda: ex._thread_main(i, run)
    t.run = real_target
    t.daemon = True
    _real_start(t)


def _controlled_join(t, timeout=None):
    ex = _ACTIVE
    me = ex.ids.get(threading.get_ident()) if ex else None
    i = getattr(t, '_mc_id', None)
    if me is None or i is None:
        return _real_join(t, timeout)
    tr = sys.gettrace()
    sys.settrace(None)
    try:
        if timeout is None or (timeout > 0 and not ex.timed_out(me, i)):
            ex.join(me, i)
            _real_join(t, 1)
    finally:
        sys.settrace(tr)


def _settled(make_bodies, files, schedule, wait, opcodes, judge):
    try:
        ex = Execution(make_bodies(), files, schedule, wait=wait, opcodes=opcodes).run()
        if not ex.contended or judge is None or not judge(ex):
            return ex
    except Stuck:
        pass
    return Execution(make_bodies(), files, schedule, wait=3 * wait, opcodes=opcodes, patience=50).run()


def explore(make_bodies, files, bound, visit, wait=10.0, part=(0, 1), free_bound=2, deadline=None, opcodes=False,
            judge=None):
    """Runs every schedule with at most `bound` preemptions and at most `free_bound` other choices among the threads
    when the running one ended or waits; visit(execution, schedule) is called after each.
    judge(execution) -> message or None; an execution found wrong in which a thread seemed to wait for a real lock is repeated
    with more patience, so that a slow machine is not taken for a fault of the code.
    part=(r, m): only the schedules whose first preemption has a decision number congruent r modulo m (those without
    preemption belong to r = 0).  Returns (number of executions, were all of them run?)."""
    count = 0
    began, contended = time.time(), False
    todo = [((), 0, 0)]
    while todo:
        if deadline is not None and time.time() > (deadline if not contended else min(deadline, began + 10)):
            return count, False
        schedule, used, free = todo.pop()
        ex = _settled(make_bodies, files, schedule, wait, opcodes, judge)
        contended = contended or ex.contended  # real locks make executions slow: fewer of them
        if used or part[0] == 0:
            count += 1
            visit(ex, schedule)
        start = schedule[-1][0] + 1 if schedule else 0
        for k in range(start, len(ex.log)):
            running, options, chosen = ex.log[k]
            if running is None:
                if free >= free_bound:
                    continue
                todo.extend((schedule + ((k, o),), used, free + 1) for o in options if o != chosen)
            else:
                if used >= bound or (not used and k % part[1] != part[0]):
                    continue
                todo.extend((schedule + ((k, o),), used + 1, free) for o in options if o != chosen)
    return count, True
