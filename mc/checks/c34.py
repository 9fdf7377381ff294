"""Timers under a controlled clock: every history of waiting, lap and total readings on two timers up to a depth."""
import itertools
import time
import timeit

from .. import boot
from ..core import exc_text

PROP = 'C34'
TITLE = 'Elapsed times'
TECHNIQUE = 'model checking: exhaustive enumeration of histories of the real class under a clock the harness controls, judged against a model of elapsed time'
RULE = 'every reading equals that of a model which adds up the waiting times; non-trivial: something has been waited for and read'
ASSUMES = ['the clock does not move while a reading is taken', 'fractions of a second are cut off']

NOW = [1000.0]
ACTIVE = [False]
TIMER = None
REAL = {}


def _fake(mod, name, scale, as_int):
    real = getattr(mod, name)
    REAL[name] = real

    def clock(*a):
        if not ACTIVE[0]:
            return real(*a)
        return int(NOW[0] * scale) if as_int else NOW[0] * scale
    setattr(mod, name, clock)


def setup():
    global TIMER
    if TIMER is not None:
        return
    boot.boot()
    for name in ('time', 'perf_counter', 'monotonic', 'process_time'):
        _fake(time, name, 1.0, False)
        _fake(time, name + '_ns', 10 ** 9, True)
    timeit.default_timer = time.perf_counter
    import sys
    sys.modules.pop('scrappybara.utils.timer', None)
    from scrappybara.utils.timer import Timer
    TIMER = Timer


WAITS = [0.0, 0.25, 0.75, 1.0, 59.0, 59.75, 60.0, 61.5, 599.0, 3599.75, 3600.0, 36000.5, 86399.0, 359999.0, 360000.0]
SHORT = [0.75, 59.5, 3600.25]
OPS = [('wait', w) for w in SHORT] + [('lap', 0), ('total', 0), ('lap', 1), ('total', 1), ('new', 1)]


def BOUNDS(tier):
    d = 5 if tier == 'quick' else 7
    return {'histories': 'all sequences of up to %d operations out of %d (three waits, lap and total of two timers, a new timer)' % (d, len(OPS)),
            'times': 'all pairs of %d waiting times before a lap and a total, every second up to %d' % (len(WAITS), 8000 if tier == 'quick' else 100000),
            'laps': 'up to 200 laps in a row'}


def chunks(tier):
    d = 5 if tier == 'quick' else 7
    return [('times', 0), ('seconds', 8000 if tier == 'quick' else 100000), ('many', 0)] + [('hist', d, i) for i in range(len(OPS))]


def hms(t):
    t = int(t)
    return '%d:%02d:%02d' % (t // 3600, t // 60 % 60, t % 60)


def history(ops, ctx):
    def body():
        NOW[0] = 1000.0
        ACTIVE[0] = True
        try:
            timers = [TIMER(), TIMER()]
            made, last = [NOW[0]] * 2, [NOW[0]] * 2
            for i, (op, x) in enumerate(ops):
                if op == 'wait':
                    NOW[0] += x
                elif op == 'new':
                    timers[x] = TIMER()
                    made[x] = last[x] = NOW[0]
                else:
                    got = timers[x].lap_time if op == 'lap' else timers[x].total_time
                    want = hms(NOW[0] - (last[x] if op == 'lap' else made[x]))
                    last[x] = NOW[0]
                    if got != want:
                        return 'reading %d (%s) is %r, expected %r' % (i, op, got, want)
            return None
        finally:
            ACTIVE[0] = False
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


def run(chunk, ctx):
    def one(ops):
        msg = history(ops, ctx)
        case = {'ops': [list(o) for o in ops]}
        if msg:
            ctx.fail(case, msg)
        else:
            ctx.done(tuple(ops), any(o[0] == 'wait' for o in ops) and any(o[0] in ('lap', 'total') for o in ops), case if len(ops) < 8 else None)
    if chunk[0] == 'times':
        for a, b in itertools.product(WAITS, repeat=2):
            one([('wait', a), ('lap', 0), ('wait', b), ('lap', 0), ('total', 0), ('total', 1)])
            one([('wait', a), ('total', 0), ('wait', b), ('total', 0), ('lap', 1)])
    elif chunk[0] == 'seconds':
        for t in range(chunk[1]):
            one([('wait', float(t)), ('lap', 0), ('total', 0)])
    elif chunk[0] == 'many':
        for n in (1, 2, 3, 10, 99, 100, 101, 200):
            one([('wait', 1.5), ('lap', 0)] * n + [('total', 0), ('total', 1)])
    else:
        _, d, first = chunk
        for n in range(d):
            for rest in itertools.product(OPS, repeat=n):
                one([OPS[first]] + list(rest))


def replay(case):
    from ..core import Ctx
    setup()
    return history([tuple(o) for o in case['ops']], Ctx())
