"""Failing builds: a fault at every step of reading, splitting, counting and smoothing; the old files must survive."""
import contextlib
import io
import sys
import threading

from .. import boot, lmfix
from ..core import CaseTimeout
from . import c27
from .c27 import InlinePool, MKN_NAME, MLE_NAME, use_pool

PROP = 'C29'
TITLE = 'Failing builds leave the files alone'
LEVEL = 'fault_enumeration'
RULE = 'the build ends with an exception and the bytes of all model files are unchanged; after the fault is gone the same ' \
       'builder builds the right files; non-trivial: a fault was delivered'
ASSUMES = ['faults are exceptions (errors of the text source, of worker processes, of thread starts, of any function of the '
           'splitting, counting and smoothing modules, interrupts, refused data); the failing of the writing itself is not claimed',
           'worker processes are run in turn in this process; a family of cases uses real ones']

LMB = None
COMPUTE = ('preprocessing/', 'langmodel/ngrams_extraction', 'langmodel/ngram_store')
SMOOTH = ('langmodel/mkn_smoother', 'langmodel/mle_smoother', 'langmodel/smoother', 'utils/multithreading')


class Injected(Exception):
    pass


class InjectedBase(BaseException):
    pass


def every_kind():
    """one exception of every built-in kind a text source or a worker can fail with"""
    out = []
    todo = [Exception]
    while todo:
        cls = todo.pop(0)
        if cls.__module__ != 'builtins' or issubclass(cls, (StopIteration, StopAsyncIteration)):
            continue
        todo += sorted(cls.__subclasses__(), key=lambda c: c.__name__)
        try:
            if issubclass(cls, UnicodeDecodeError):
                out.append(cls('utf-8', b'\xff', 0, 1, 'invalid start byte'))
            elif issubclass(cls, UnicodeEncodeError):
                out.append(cls('ascii', '\xe9', 0, 1, 'ordinal not in range'))
            elif issubclass(cls, UnicodeTranslateError):
                out.append(cls('x', 0, 1, 'no'))
            elif issubclass(cls, BaseExceptionGroup):
                out.append(cls('group', [ValueError('x')]))
            else:
                out.append(cls('injected'))
        except TypeError:
            continue
    return out


def setup():
    global LMB
    c27.setup()
    LMB = c27.LMB


def rich(order):
    out = []
    base = ['p', 'q', 'r', 's'][:order]
    for k, w in enumerate(['u', 'v', 'w', 'x'], 1):
        out += [' '.join(w + x for x in base)] * k
    return out


CORPORA = {
    'mle2': (['a b', 'b c ? a', 'I b'], 2, MLE_NAME),
    'mle3': (['a b c \n a b c'], 3, MLE_NAME),
    'mkn2': ([' \n '.join(rich(2))], 2, MKN_NAME),
    'mkn2many': (rich(2), 2, MKN_NAME),
    'mkn3': ([' \n '.join(rich(3))], 3, MKN_NAME),
}
POOR = [(['a b'], 2), ([], 2), ([''], 3), ([' \n '.join(rich(2))], 3), (['a b c'] * 4, 2), (['a a', 'a b', 'a b', 'b a', 'b a', 'b a'], 2)]


def BOUNDS(tier):
    return {'faults': 'text source fails at every position (exceptions of every built-in kind, interrupt, wrong type); every pool creation and every call inside a worker; every thread start; '
                      'every entry into a function of the splitting, counting and smoothing code (%s); refused data' % ('every one up to 400, then every 7th' if tier == 'quick' else 'every single one'),
            'corpora': '%d corpora, both smoothings, orders 2..3, 1..3 processes' % len(CORPORA),
            'before': 'files of orders 1..4 with known bytes, or only some of them'}


def chunks(tier):
    out = [('source', n, p) for n in CORPORA for p in (1, 2, 3)]
    out += [('pool', n, p) for n in CORPORA for p in (1, 2, 3)]
    out += [('thread', n, p) for n in CORPORA for p in (1, 2, 3)]
    m = 6 if tier == 'quick' else 12
    out += [('enter', n, r, m, tier) for n in CORPORA for r in range(m)]
    out += [('poor', 0), ('real', 0), ('smoother', 0)]
    return out


def snapshot(root):
    return {f.name: f.read_bytes() for f in sorted((root / 'langmodel').iterdir()) if f.name.endswith('_grams.txt')}


def prepare(which=(1, 2, 3, 4)):
    root = lmfix._own_dir()
    for f in (root / 'langmodel').iterdir():
        f.unlink()
    for n in which:
        boot.write_ngrams(n, [(' '.join(['old%d' % i] * n), i + 1, 0.01 * (9 - i)) for i in range(6)], root)
    boot.set_data_dir(root)
    return root


def attempt(fn):
    """runs a build; returns the exception or None"""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            fn()
        except CaseTimeout:
            raise
        except (Exception, InjectedBase, KeyboardInterrupt) as e:
            return e
    return None


def judge(ctx, case, fault, recover=True, which=(1, 2, 3, 4), order=2, smoothing=MLE_NAME, procs=1, texts=()):
    """fault(builder) runs a build that must fail"""
    root = prepare(which)
    before = snapshot(root)
    with contextlib.redirect_stdout(io.StringIO()):
        builder = LMB(order, smoothing=smoothing, nb_processes=procs)
    ctx.steps += 1
    delivered = fault(builder)
    if delivered is None:
        return False
    err = delivered
    after = snapshot(root)
    if err == 'no error':
        ctx.fail(case, 'the build reports success although it was hit by a fault')
        return True
    changed = [f for f in before if after.get(f) != before[f]]
    if changed:
        ctx.fail(case, 'the failed build (%s) changed %s' % (err, ', '.join(changed)))
        return True
    if recover:
        e = attempt(lambda: builder(iter(texts)))
        if e is not None:
            ctx.fail(case, 'after the fault, the same builder fails: %r' % e)
            return True
        got = snapshot(root)
        prepare(())
        with contextlib.redirect_stdout(io.StringIO()):
            LMB(order, smoothing=smoothing, nb_processes=procs)(iter(texts))
        want = snapshot(root)
        if any(got.get('%d_grams.txt' % n) != want.get('%d_grams.txt' % n) for n in range(1, order + 1)):
            ctx.fail(case, 'after the fault, the same builder builds different files')
            return True
    ctx.done(repr(case), True, case)
    return True


def outcome(e):
    return 'no error' if e is None else type(e).__name__


def run(chunk, ctx):
    kind = chunk[0]
    if kind in ('source', 'pool', 'thread', 'enter'):
        name = chunk[1]
        texts, order, smoothing = CORPORA[name]
    if kind == 'source':
        procs = chunk[2]
        for at in range(len(texts) + 1):
            for what in ('exception', 'interrupt', 'none', 'bytes', 'number'):
                if what in ('none', 'bytes', 'number') and at == len(texts):
                    continue

                def source():
                    for i, t in enumerate(texts):
                        if i == at:
                            if what == 'exception':
                                raise Injected('source')
                            if what == 'interrupt':
                                raise KeyboardInterrupt()
                            yield {'none': None, 'bytes': b'a b', 'number': 7}[what]
                        yield t
                    if at == len(texts):
                        raise Injected('end') if what == 'exception' else KeyboardInterrupt()
                judge(ctx, {'corpus': name, 'processes': procs, 'fault': 'source', 'at': at, 'what': what},
                      lambda b: outcome(attempt(lambda: b(source()))), True, (1, 2, 3, 4) if at % 2 == 0 else (2,), order, smoothing, procs, texts)
        if name in ('mle2', 'mkn2many'):
            # failures of every kind
            for at in sorted({0, len(texts) // 2, len(texts) - 1, len(texts)}):
                for error in every_kind():
                    def failing():
                        yield from texts[:at]
                        raise error
                    judge(ctx, {'corpus': name, 'processes': procs, 'fault': 'source', 'at': at, 'what': type(error).__name__},
                          lambda b: outcome(attempt(lambda: b(failing()))), False, (1, 2, 3), order, smoothing, procs, texts)
    elif kind == 'pool':
        procs = chunk[2]
        for where in ('create', 'call', 'return'):
            for at in range(1, 40):
                n = [0]

                class Faulty(InlinePool):
                    def __init__(self, *a, **k):
                        if where == 'create':
                            n[0] += 1
                            if n[0] == at:
                                raise OSError('no more processes')
                        super().__init__(*a, **k)

                    def _run(self, fn, args, kwds=None):
                        n[0] += where != 'create'
                        if n[0] == at and where == 'call':
                            raise Injected('worker')
                        r = super()._run(fn, args, kwds)
                        if n[0] == at and where == 'return':
                            raise MemoryError()
                        return r

                def fault(b):
                    use_pool(Faulty)
                    try:
                        e = attempt(lambda: b(iter(texts)))
                    finally:
                        use_pool(InlinePool)
                    return None if n[0] < at else outcome(e)
                if not judge(ctx, {'corpus': name, 'processes': procs, 'fault': 'pool', 'where': where, 'at': at}, fault, at < 3, (1, 2, 3), order, smoothing, procs, texts):
                    break
        if name in ('mle2', 'mkn2many'):
            for error in every_kind():
                for at in (1, 2, len(texts)):
                    n = [0]

                    class Failing(InlinePool):
                        def _run(self, fn, args, kwds=None):
                            n[0] += 1
                            if n[0] == at:
                                raise error
                            return super()._run(fn, args, kwds)

                    def fault(b):
                        use_pool(Failing)
                        try:
                            e = attempt(lambda: b(iter(texts)))
                        finally:
                            use_pool(InlinePool)
                        return None if n[0] < at else outcome(e)
                    judge(ctx, {'corpus': name, 'processes': procs, 'fault': 'pool', 'where': type(error).__name__, 'at': at}, fault, False, (1, 2, 3), order, smoothing, procs, texts)
    elif kind == 'thread':
        procs = chunk[2]
        for at in range(1, 60):
            n = [0]
            real = threading.Thread.start

            def start(self):
                n[0] += 1
                if n[0] == at:
                    raise RuntimeError("can't start new thread")
                return real(self)

            def fault(b):
                threading.Thread.start = start
                try:
                    e = attempt(lambda: b(iter(texts)))
                finally:
                    threading.Thread.start = real
                return None if n[0] < at else outcome(e)
            if not judge(ctx, {'corpus': name, 'processes': procs, 'fault': 'thread', 'at': at}, fault, at < 3, (1, 2, 3), order, smoothing, procs, texts):
                break
    elif kind == 'enter':
        _, _, r, m, tier = chunk
        total = traced(LMB, texts, order, smoothing, None)[0]
        for at in range(1 + r, total + 1, m):
            if tier == 'quick' and at > 400 and (at // m) % 7:
                continue

            def fault(b):
                n, e = traced(b, texts, order, smoothing, at)
                return None if n < at else outcome(e)
            judge(ctx, {'corpus': name, 'fault': 'enter', 'at': at}, fault, at % 10 == 0, (1, 2, 3), order, smoothing, 2, texts)
    elif kind == 'poor':
        for texts, order in POOR:
            for procs in (1, 2, 3):
                for which in ((1, 2, 3, 4), (1,), (2, 3)):
                    judge(ctx, {'texts': texts, 'order': order, 'processes': procs, 'fault': 'poor data'}, lambda b: outcome(attempt(lambda: b(iter(texts)))),
                          False, which, order, MKN_NAME, procs, texts)
    elif kind == 'smoother':
        # the smoother itself fails
        from scrappybara.langmodel.mkn_smoother import MKNSmoother
        from scrappybara.langmodel.mle_smoother import MLESmoother
        for name, (texts, order, smoothing) in CORPORA.items():
            cls = MKNSmoother if smoothing == MKN_NAME else MLESmoother
            for method in ('__init__', '__call__'):
                for late in (False, True):
                    old = getattr(cls, method)
                    hit = []

                    def broken(self, *a, **k):
                        if late:
                            old(self, *a, **k)
                        hit.append(1)
                        raise ZeroDivisionError('smoothing')

                    def fault(b):
                        setattr(cls, method, broken)
                        try:
                            e = attempt(lambda: b(iter(texts)))
                        finally:
                            setattr(cls, method, old)
                        return outcome(e) if hit else None
                    judge(ctx, {'corpus': name, 'fault': 'smoother', 'method': method, 'late': late}, fault, True, (1, 2, 3), order, smoothing, 2, texts)
    else:
        c27.real_pool(True)
        try:
            for texts in (['a b', None, 'c d'], [None], ['a', 'b', 'c', 3]):
                judge(ctx, {'texts': repr(texts), 'fault': 'real processes'}, lambda b: outcome(attempt(lambda: b(iter(texts)))), False, (1, 2), 2, MLE_NAME, 2, ())
        finally:
            c27.real_pool(False)


def traced(builder, texts, order, smoothing, at):
    """runs a build and counts entries into the computing code; raises at entry number `at`.  With builder = the class, a
    clean run that only counts."""
    base = str(boot.REPO) + '/scrappybara/'
    n = [0]
    lock = threading.Lock()
    if builder is LMB:
        prepare((1, 2, 3))
        with contextlib.redirect_stdout(io.StringIO()):
            builder = LMB(order, smoothing=smoothing, nb_processes=2)

    def tracer(frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        if event == 'call' and fn.startswith(base) and code.co_name not in ('<listcomp>', '<genexpr>', '<lambda>', '<dictcomp>'):
            rest = fn[len(base):]
            # accessors of the smoother are also read while the files are written
            if rest.startswith(COMPUTE) or (rest.startswith(SMOOTH) and code.co_name.startswith(('__', 'calc', '_calc', '_prepare', 'run_'))):
                with lock:
                    n[0] += 1
                    hit = n[0] == at
                if hit:
                    raise Injected('at %s:%s' % (rest, code.co_name))
        return None
    sys.settrace(tracer)
    threading.settrace(tracer)
    try:
        e = attempt(lambda: builder(iter(texts)))
    finally:
        sys.settrace(None)
        threading.settrace(None)
    return n[0], e


def replay(case):
    from ..core import Ctx, StopChunk
    setup()
    ctx = Ctx()
    kinds = {'source': ('source', case.get('corpus'), case.get('processes')), 'pool': ('pool', case.get('corpus'), case.get('processes')),
             'thread': ('thread', case.get('corpus'), case.get('processes')), 'poor data': ('poor', 0), 'real processes': ('real', 0), 'smoother': ('smoother', 0),
             'enter': ('enter', case.get('corpus'), 0, 1, 'thorough')}
    try:
        run(kinds[case['fault']], ctx)
    except StopChunk:
        pass
    return ctx.fails[0][1] if ctx.fails else None
