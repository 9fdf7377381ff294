"""Parallel mapping: every number of items and threads, every completion order, line-level interleavings, every failing item."""
import itertools
import time

from .. import boot, sched
from ..core import CaseTimeout, exc_text

PROP = 'C07'
TITLE = 'Ordered parallel map'
RULE = 'results equal [f(x) for x in items], f called exactly once per item, a failure of f reaches the caller; ' \
       'non-trivial: more than one thread works'
ASSUMES = ['threads interleave at lines of the code under test and at calls of the mapped function',
           'thread switches inside one line of Python are explored in the smallest configurations only']

RM = None
FILES = None


def setup():
    global RM, FILES
    boot.boot()
    from scrappybara.utils.multithreading import run_multithreads
    RM = run_multithreads
    FILES = str(boot.REPO) + '/scrappybara'


def BOUNDS(tier):
    return {'sequential': 'all n in 0..130 x threads 1..20, n in 19 steps to 100003 x threads up to 64',
            'completion orders': 'n <= 3 (quick) or 4: all interleavings of the calls; n <= %d, threads <= n + 1: all completion orders of the threads, call interleavings up to %d preemptions' % ((5, 1) if tier == 'quick' else (6, 2)),
            'instruction level': 'n <= 3, two threads: all schedules with one preemption at every bytecode instruction', 'line-level': 'all schedules with <= %d preemptions, n <= %d, threads <= 3' % ((1, 4) if tier == 'quick' else (2, 4)),
            'failures': 'every single failing item and every pair, in every completion order for n <= 4; 28 kinds of failures at every item of n <= 6',
            'items': 'distinct, equal, None and falsy items and results; list and tuple inputs'}


class Boom(Exception):
    pass


def chunks(tier):
    out = []
    out += [('plain', lo, hi) for lo, hi in ((0, 20), (20, 50), (50, 80), (80, 105), (105, 131))]
    out += [('big', n) for n in (200, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5003, 10001, 32769, 65537, 100003)]
    out += [('odd', 0)]
    top = 5 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for k in range(1, n + 2):
            # small cases with unbounded switching, larger ones with a preemption bound (all completion orders of threads)
            bound = (99 if n <= 3 else 1 if k < 5 else 0) if tier == 'quick' else (99 if n <= 4 else 2 if k < 5 else 1)
            out.append(('order', n, k, bound))
    for n in range(1, 5):
        for k in range(1, 4):
            out.append(('fail', n, k))
    out.append(('failplain', 0))
    out.append(('failtype', 0))
    b = 1 if tier == 'quick' else 2
    m = 1 if tier == 'quick' else 16
    for n in range(1, 5):
        for k in range(2, 4):
            out += [('line', n, k, b, r, m) for r in range(m)]
    # at every bytecode instruction
    out += [('ops', n, k, 1, r, 2) for n, k in (((2, 2), (3, 2)) if tier == 'quick' else ((1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2))) for r in range(2)]
    return out


def f(x):
    return ('r', x)


def check_result(items, res, calls):
    want = [f(x) for x in items]
    if list(res) != want:
        return 'results %r instead of %r' % (list(res)[:20], want[:20])
    if sorted(calls, key=repr) != sorted(items, key=repr):
        return 'the function was called on %r' % (sorted(calls, key=repr)[:20],)
    return None


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


FAILURES = [Boom, ValueError, KeyError, IndexError, AttributeError, TypeError, OSError, TimeoutError, RuntimeError, AssertionError,
            ArithmeticError, ZeroDivisionError, UnicodeError, MemoryError, RecursionError, LookupError, EOFError, ImportError,
            NotImplementedError, PermissionError, ConnectionError, InterruptedError, BlockingIOError, Warning, UserWarning,
            lambda x: Odd(x, 1), lambda x: ValueError(), lambda x: KeyError(None),
            SystemExit, KeyboardInterrupt, lambda x: SystemExit(0)]


def failing(n, k, x, make, ctx):
    """The call fails as the function does, and the function is called at most once per item"""
    calls = []
    want = make(x)

    def process(y):
        calls.append(y)
        if y == x:
            raise want
        return f(y)

    def call():
        try:
            return False, RM(list(range(n)), process, k)
        except (CaseTimeout, Exception):
            raise
        except BaseException as e:  # noqa - interrupts and exits are failures too
            return True, e
    ok, r = ctx.call(call)
    if ok:
        ok, r = (False, r[1]) if r[0] else (True, r[1])
    if ok:
        return 'a failing item went unnoticed: %r' % (r,)
    if type(r) is not type(want):
        return 'the function fails with %r, the call with %s' % (want, exc_text(r))
    if len(set(calls)) != len(calls):
        return 'the function was called twice on an item: %r' % (calls,)
    return None


def plain(items, k, ctx, fail=()):
    calls = []

    def process(x):
        calls.append(x)
        if x in fail:
            raise Boom(x)
        return f(x)
    ok, r = ctx.call(RM, items, process, k)
    if fail:
        return None if (not ok and isinstance(r, Boom)) else 'a failing item went unnoticed: %r' % (r,)
    if not ok:
        return exc_text(r)
    return check_result(items, r, calls)


def bodies(n, k, fail, files_traced, calls, holder):
    def make():
        calls.clear()

        def process(x):
            ex = sched._ACTIVE
            if not files_traced and ex is not None and ex.ids.get(__import__('threading').get_ident()) is not None:
                ex.point()
            calls.append(x)
            if x in fail:
                raise Boom(x)
            return f(x)
        items = list(range(n))
        return [lambda: RM(items, process, k)]
    return make


def explored(n, k, fail, line_level, bound, part, ctx, seconds, case, ops=False):
    calls = []
    bad = []

    def judge(ex):
        if 0 in ex.errors:
            e = ex.errors[0]
            return None if fail and isinstance(e, Boom) else exc_text(e)
        if fail:
            return 'a failing item went unnoticed: %r' % (ex.results.get(0),)
        return check_result(list(range(n)), ex.results[0], calls)

    def visit(ex, schedule):
        ctx.steps += len(ex.log)
        msg = judge(ex)
        if msg:
            ctx.fail(dict(case, schedule=[list(s) for s in schedule]), msg)
        else:
            ctx.done((n, k, fail, tuple(c for _, _, c in ex.log)), k > 1 and n > 1, dict(case, schedule=[list(s) for s in schedule]))
    try:
        _, full = sched.explore(bodies(n, k, fail, line_level, calls, bad), (FILES if line_level else '\0'), bound, visit,
                                part=part, deadline=time.time() + seconds, opcodes=ops, judge=judge)
        if not full:
            ctx.extra['cut_short'] += 1
    except sched.Stuck as e:
        ctx.fail(case, 'the call does not come back: %s' % e)


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'plain':
        for n in range(chunk[1], chunk[2]):
            for k in range(1, 21):
                msg = plain(list(range(n)), k, ctx)
                if msg:
                    ctx.fail({'n': n, 'threads': k}, msg)
                else:
                    ctx.done((n, k), n > 1 and k > 1)
    elif kind == 'big':
        for k in (1, 2, 3, 7, 8, 12, 16, 31, 32, 33, 48, 64):
            msg = plain(list(range(chunk[1])), k, ctx)
            if msg:
                ctx.fail({'n': chunk[1], 'threads': k}, msg)
            else:
                ctx.done((chunk[1], k))
    elif kind == 'odd':
        for vals in ([None], [None, None, None], [0, '', None, [], False], ['a', 'a', 'b', 'a'], [[1], [1], [2]], [(), (), ()]):
            for k in range(1, 8):
                for conv in (list, tuple):
                    for fn in (lambda x: x, lambda x: None, lambda x: 0, lambda x: [x]):
                        calls = []
                        ok, r = ctx.call(RM, conv(vals), lambda x: (calls.append(x), fn(x))[1], k)
                        if ok and len(calls) != len(vals):
                            ctx.fail({'values': vals, 'threads': k}, '%d calls of the function on %d items' % (len(calls), len(vals)))
                        elif not ok or list(r) != [fn(v) for v in vals]:
                            ctx.fail({'values': vals, 'threads': k, 'result': repr(r)}, 'wrong result')
                        else:
                            ctx.done((repr(vals), k, conv is list))
        # equal and identical items: one call for each, each result at its place
        one = ['x']
        for n in range(1, 9):
            for k in range(1, 5):
                for items in ([one] * n, ['x'] * n, [one, 'x'] * n, [1, 1.0, True] * n, list(zip(range(n), range(n))) * 2):
                    seq = []
                    ok, r = ctx.call(RM, items, lambda x: (seq.append(x), x)[1], k)
                    if not ok or [repr(x) for x in r] != [repr(x) for x in items] or len(seq) != len(items):
                        ctx.fail({'values': repr(items), 'threads': k, 'result': repr(r), 'calls': len(seq)}, 'wrong result or number of calls')
                    else:
                        ctx.done((repr(items), k, 'alike'))
    elif kind == 'failtype':
        for num, make in enumerate(FAILURES):
            for n in range(1, 7):
                for k in range(1, 4):
                    for x in range(n):
                        msg = failing(n, k, x, make, ctx)
                        if msg:
                            ctx.fail({'n': n, 'threads': k, 'item': x, 'failure': num}, msg)
                        else:
                            ctx.done((n, k, x, num))
    elif kind == 'failplain':
        for n in range(1, 30):
            for k in range(1, 12):
                for x in range(n):
                    msg = plain(list(range(n)), k, ctx, (x,))
                    if msg:
                        ctx.fail({'n': n, 'threads': k, 'fail': [x]}, msg)
                    else:
                        ctx.done((n, k, x))
    elif kind == 'order':
        n, k = chunk[1:3]
        explored(n, k, (), False, chunk[3], (0, 1), ctx, 60 if chunk[3] < 3 else 1500, {'n': n, 'threads': k, 'line': False})
    elif kind == 'fail':
        n, k = chunk[1:]
        for fail in [(x,) for x in range(n)] + list(itertools.combinations(range(n), 2)):
            explored(n, k, fail, False, 1, (0, 1), ctx, 30, {'n': n, 'threads': k, 'fail': list(fail), 'line': False})
    elif kind == 'line':
        _, n, k, b, r, m = chunk
        explored(n, k, (), True, b, (r, m), ctx, 40 if b == 1 else 1500, {'n': n, 'threads': k, 'line': True})
    elif kind == 'ops':
        _, n, k, b, r, m = chunk
        explored(n, k, (), True, b, (r, m), ctx, 60 if n < 4 else 1500, {'n': n, 'threads': k, 'line': True, 'ops': True}, ops=True)


def replay(case):
    from ..core import Ctx
    ctx = Ctx()
    if 'failure' in case:
        return failing(case['n'], case['threads'], case['item'], FAILURES[case['failure']], ctx)
    if 'line' not in case:
        return plain(list(range(case['n'])), case['threads'], ctx, tuple(case.get('fail', ()))) if 'n' in case else 'see case'
    calls = []
    fail = tuple(case.get('fail', ()))
    ex = sched.Execution(bodies(case['n'], case['threads'], fail, case['line'], calls, [])(),
                         FILES if case['line'] else '\0', [tuple(s) for s in case.get('schedule', [])], opcodes=case.get('ops', False))
    try:
        ex.run()
    except sched.Stuck as e:
        return str(e)
    if 0 in ex.errors:
        return None if fail and isinstance(ex.errors[0], Boom) else exc_text(ex.errors[0])
    if fail:
        return 'failure unnoticed'
    return check_result(list(range(case['n'])), ex.results[0], calls)
