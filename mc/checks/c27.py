"""Building a model: every small corpus, order, smoothing and number of processes; the files are read back and compared."""
import concurrent.futures
import concurrent.futures.process
import contextlib
import io
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import pickle

from .. import boot, lmfix, reflmb
from ..core import exc_text

PROP = 'C27'
TITLE = 'Built model files'
RULE = 'the files hold exactly the n-grams of the reference count with their counts and probabilities, by falling ' \
       'probability, and load back, and no other file is created or changed; non-trivial: the files are not empty'
ASSUMES = ['sentences end at line breaks and question marks (splitting itself is property C06)',
           'worker processes are run in turn in this process with arguments and results passed through pickle; a family of '
           'cases uses real worker processes',
           'n-grams to which the smoothing gives no probability above zero are not written']

LMB = LM = None


class Done:
    """result of an asynchronous call that has already run"""

    def __init__(self, fn):
        try:
            self.value, self.error = fn(), None
        except Exception as e:  # noqa - handed over by get()
            self.value, self.error = None, e

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


class InlinePool:
    """multiprocessing.Pool with the workers run in turn; what crosses the process border is pickled"""

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _run(self, fn, args, kwds=None):
        fn, args, kwds = pickle.loads(pickle.dumps((fn, args, kwds or {})))
        return pickle.loads(pickle.dumps(fn(*args, **kwds)))

    def map(self, fn, items, chunksize=None):
        return [self._run(fn, (x,)) for x in items]

    def imap(self, fn, items, chunksize=1):
        return iter(self.map(fn, items))

    imap_unordered = imap

    def starmap(self, fn, items, chunksize=None):
        return [self._run(fn, tuple(x)) for x in items]

    def apply(self, fn, args=(), kwds={}):
        return self._run(fn, tuple(args), kwds)

    def map_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        return self._later(lambda: self.map(fn, items), callback, error_callback)

    def starmap_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        return self._later(lambda: self.starmap(fn, items), callback, error_callback)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return self._later(lambda: self.apply(fn, args, kwds), callback, error_callback)

    @staticmethod
    def _later(fn, callback, error_callback):
        r = Done(fn)
        if r.error is None and callback:
            callback(r.value)
        if r.error is not None and error_callback:
            error_callback(r.error)
        return r

    def close(self):
        pass

    terminate = join = close


class InlineExecutor(concurrent.futures.Executor):
    """ProcessPoolExecutor with the workers run in turn, on top of the Pool in use"""

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers < 1:
            raise ValueError('max_workers must be greater than 0')
        self.__pool = multiprocessing.Pool(max_workers)

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        try:
            f.set_result(self.__pool.apply(fn, args, kwargs))
        except Exception as e:  # noqa - handed over by result()
            f.set_exception(e)
        return f


# every way to a pool of processes and its owner
PLACES = [(multiprocessing, 'Pool'), (multiprocessing.context.BaseContext, 'Pool')]
REAL_PLACES = [getattr(o, n) for o, n in PLACES]
RealExecutor = concurrent.futures.ProcessPoolExecutor


def use_pool(cls):
    """cls: a stand-in for the pool, or None for the real one"""
    import sys
    pools = REAL_PLACES + STANDINS + [multiprocessing.pool.Pool]
    for (owner, name), real in zip(PLACES, REAL_PLACES):
        if cls is None:
            setattr(owner, name, real)
        elif owner is multiprocessing.context.BaseContext:
            setattr(owner, name, lambda self, *a, **k: cls(*a, **k))
        else:
            setattr(owner, name, cls)
    concurrent.futures.ProcessPoolExecutor = concurrent.futures.process.ProcessPoolExecutor = RealExecutor if cls is None else InlineExecutor
    if cls is not None and cls not in STANDINS:
        STANDINS.append(cls)
    mod = sys.modules.get('scrappybara.langmodel.language_model_builder')
    for name, value in list(vars(mod).items()) if mod else []:
        if any(value is p or value == p for p in pools):
            setattr(mod, name, multiprocessing.Pool)
        elif value is RealExecutor or value is InlineExecutor:
            setattr(mod, name, concurrent.futures.ProcessPoolExecutor)


STANDINS = []


def setup():
    global LMB, LM
    boot.boot()
    use_pool(InlinePool)
    from scrappybara.langmodel import language_model_builder
    from scrappybara.langmodel.language_model import LanguageModel
    LMB, LM = language_model_builder.LanguageModelBuilder, LanguageModel


def real_pool(on):
    """use real worker processes in this process of the explorer"""
    multiprocessing.current_process()._config['daemon'] = False
    use_pool(None if on else InlinePool)


UNITS = ['a', 'b', 'I', 'Bob', 'x1', ',', '?', '\n', 'cAt', 'é']


# words in all kinds of spelling -> their tokens
WORDS = {w: [w] for w in ('a', 'A', 'i', 'I', 'B', 'z', 'Z', 'x', 'bob', 'Bob', 'BOB', 'boB', 'bOb', 'eBay', 'iPhone', 'McCat', 'a1', '1a', '1', '12', '3.5', '1,000', 'well-known', 'x-y',
                          '\u00e9', '\u00e9t\u00e9', 'na\u00efve', 'caf\u00e9', '\u00c9t\u00e9', '\u00f1', 'stra\u00dfe', 'a_b', '_', 'www.a.com', ':)', '$', '@a', '#b', 'a@b', 'old', 'older', 'the', 'zebra', 'II',
                          'Is', 'It', 'in', 'is', 'lI', 'Ii', 'U.S.', 'e.g.', 'nt', 'can', 'not', '-', '+', '\u4e2d', '\u03b1', 'b2b', 'xx', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', 'unk', 'n', 's', 'none', 'nan', 'null', 'true', '%')}
WORDS.update({"it's": ['it', "'s"], "don't": ['do', "n't"], 'cannot': ['can', 'not'], "I'm": ['I', "'m"], "I've": ['I', "'ve"], '(a)': ['(', 'a', ')'], '"b"': ['"', 'b', '"'],
              'a,': ['a', ','], 'a;b': ['a', ';', 'b'], 'x=y': ['x', '=', 'y'], 'a/b': ['a/b'], 'and/or': ['and', '/', 'or'], '[b]': ['[', 'b', ']'], "dogs'": ['dogs', "'"]})
SIDES = [('', []), ('a', ['a']), ('I', ['I']), ('Bob', ['Bob']), ('cat dog', ['cat', 'dog'])]


def sentences(text):
    """reference splitting of unit texts"""
    out, cur = [], []
    for u in text.split(' '):
        if u == '':
            continue
        if u == '\n':
            out.append(cur)
            cur = []
        else:
            cur.append(u)
            if u == '?':
                out.append(cur)
                cur = []
    out.append(cur)
    return [s for s in out if s]


def texts_small(tier):
    units = UNITS
    out = ['']
    for n in (1, 2, 3):
        out += [' '.join(p) for p in itertools.product(units, repeat=n)]
    if tier != 'quick':
        out += [' '.join(p) for p in itertools.product(['a', 'b', 'I', 'Bob', ',', '?', '\n'], repeat=4)]
    return out


PIECES = ['', 'a', 'a b', 'b a a', 'Bob', 'a ? b', 'a \n b', 'I b', 'b , a']


def rich_corpora():
    from .c28 import SETS, filler, repeated
    out = []
    for n in SETS:
        for s in SETS[n]:
            if all(len(x) == 1 for t in s for x in t.split()):
                lines = [' '.join(w for w in t) for t in repeated(s, (1, 2, 3, 4)) + filler(n)]
                out.append((n, lines))
    return out


def BOUNDS(tier):
    return {'single texts': 'all texts of up to %s units (words, I, capitalised, digits, accents, punctuation, line break), orders 1..3' % ('3' if tier == 'quick' else '3 (10 units) and 4 (7 units)'),
            'corpora': 'all lists of up to %d of %d texts, processes 1..4' % (3 if tier == 'quick' else 4, len(PIECES)),
            'batches': '0..13 texts x 1..9, 16 and 70 processes',
            'Kneser-Ney': '%d corpora, orders 2..5, processes 1..9' % (len(rich_corpora())),
            'spellings': '%d words of all spellings between %d left and right neighbours, and all in one corpus' % (len(WORDS), len(SIDES)),
            'scale': 'sentences of up to 2050 words, orders 1..6; up to 1025 texts, texts of up to 120000 words; n-grams of probability below 1e-7',
            'real processes': '5 corpora x 1..4 processes'}


def chunks(tier):
    out = [('real', k) for k in range(4)]
    out += [('single', k, 12 if tier == 'quick' else 40, tier) for k in range(12 if tier == 'quick' else 40)]
    out += [('lists', k, 8, tier) for k in range(8)]
    out += [('batches', k) for k in range(0, 14)]
    out += [('mkn', i) for i in range(len(rich_corpora()))]
    out += [('default', 0)]
    out += [('words', k) for k in range(8)] + [('wordlist', 0), ('long', 0), ('long', 1), ('many', 0), ('many', 1), ('rare', 0), ('huge', 0)]
    return out


def read_file(path):
    rows = []
    with open(str(path), encoding='utf-8') as f:
        data = f.read()
    if data and not data.endswith('\n'):
        raise ValueError('last line is not terminated')
    for line in data.split('\n')[:-1]:
        text, c, p = line.split('\t')
        rows.append((text, int(c), float(p)))
    return rows


def build(texts, order, smoothing, procs):
    root = lmfix._own_dir()
    for n in range(0, 10):
        f = root / 'langmodel' / ('%d_grams.txt' % n)
        if f.exists():
            f.unlink()
    # what an earlier build left behind has to be replaced
    for n in range(1, order + 1):
        boot.write_ngrams(n, [(' '.join(['old'] * n), 3, 0.5), (' '.join(['older'] * n), 2, 0.25)] * 30, root)
    # files of other orders and of other people are not the builder's business
    for n in (order + 1, order + 2):
        boot.write_ngrams(n, [(' '.join(['kept'] * n), 3, 0.5)], root)
    (root / 'langmodel' / 'readme.txt').write_text('mine')
    boot.set_data_dir(root)
    multiprocessing.current_process()._config['daemon'] = False  # a builder may have child processes
    with contextlib.redirect_stdout(io.StringIO()):
        kw = {} if procs is None else {'nb_processes': procs}
        if smoothing is not None:
            kw['smoothing'] = smoothing
        LMB(order, **kw)(iter(texts))
    return root


def others(root, order):
    names = sorted(p.name for p in (root / 'langmodel').iterdir())
    want = sorted(['%d_grams.txt' % n for n in range(1, order + 3)] + ['readme.txt'])
    if names != want:
        return 'the model directory holds %r' % names
    for n in (order + 1, order + 2):
        if [r[0] for r in read_file(root / 'langmodel' / ('%d_grams.txt' % n))] != [' '.join(['kept'] * n)]:
            return 'the build of order %d changed the file of order %d' % (order, n)
    return None if (root / 'langmodel' / 'readme.txt').read_text() == 'mine' else 'another file was changed'


def judge(texts, order, smoothing, procs, ctx, sents=None):
    case = {'texts': texts, 'order': order, 'smoothing': smoothing, 'processes': procs}
    if sents is None:
        sents = [s for t in texts for s in sentences(t)]
    counts = reflmb.count(sents, order)
    probs = reflmb.mle(counts) if smoothing == 'maximum_likelihood_estimation' else reflmb.mkn(counts, order)
    ok, root = ctx.call(build, texts, order, smoothing, procs)
    if not ok:
        ctx.fail(case, exc_text(root))
        return
    total = 0
    for n in range(1, order + 1):
        try:
            rows = read_file(root / 'langmodel' / ('%d_grams.txt' % n))
        except Exception as e:
            ctx.fail(case, 'file of order %d: %s' % (n, exc_text(e)))
            return
        want = {g: c for g, c in counts.items() if reflmb.order(g) == n and probs[g] > 0}
        got = {t: c for t, c, _ in rows}
        if len(got) != len(rows) or got != want:
            diff = sorted(set(got.items()) ^ set(want.items()))[:6]
            ctx.fail(case, 'order %d: counts differ at %r' % (n, diff))
            return
        for t, c, p in rows:
            if not abs(p - float(probs[t])) <= 1e-9 * float(probs[t]) + 1e-15:
                ctx.fail(case, '%r has probability %r, expected %.12f' % (t, p, float(probs[t])))
                return
        if any(a[2] < b[2] - 1e-9 * b[2] for a, b in zip(rows, rows[1:])):
            ctx.fail(case, 'order %d is not written by falling probability' % n)
            return
        total += len(rows)
    msg = others(root, order)
    if msg:
        ctx.fail(case, msg)
        return
    ok, lm = ctx.call(lambda: LM(*([1] * order)))
    if not ok or len(lm) != total:
        ctx.fail(case, 'the files do not load back: %s' % (exc_text(lm) if not ok else len(lm)))
        return
    ctx.done((tuple(sorted(counts.items())), order, smoothing), total > 0, case)


MLE_NAME, MKN_NAME = 'maximum_likelihood_estimation', 'modified_kneser_ney'


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'single':
        _, k, m, tier = chunk
        for i, t in enumerate(texts_small(tier)):
            if i % m == k:
                judge([t], 3 if tier == 'quick' and i % 4 else 1 + i % 4, MLE_NAME, 1 + i % 2, ctx)
    elif kind == 'lists':
        _, k, m, tier = chunk
        i = 0
        for n in range(0, 4 if tier == 'quick' else 5):
            for c in itertools.product(PIECES, repeat=n):
                i += 1
                if i % m == k and (n < 4 or i % 3 == 0):
                    judge(list(c), 2, MLE_NAME, 1 + i % 4, ctx)
    elif kind == 'batches':
        n = chunk[1]
        texts = ['t%s u%s ? a b' % ('xyz'[i % 3] * (1 + i // 3), 'xyz'[i % 3] * (1 + i // 3)) for i in range(n)]
        for procs in list(range(1, 10)) + [16, 70]:
            judge(texts, 2, MLE_NAME, procs, ctx)
            # the same texts from a generator of equal texts
            judge(['a b'] * n, 2, MLE_NAME, procs, ctx)
    elif kind == 'mkn':
        n, lines = rich_corpora()[chunk[1]]
        for procs in range(1, 10):
            for order in range(2, n + 1):
                judge(lines, order, MKN_NAME, procs, ctx)
        judge([' \n '.join(lines)], n, MKN_NAME, 2, ctx)
        judge([' ? '.join(lines[::-1])], n, None, 3, ctx)
        judge([' \n '.join(lines[:5]), '', ' ? '.join(lines[5:])], n, None, 1, ctx)
    elif kind == 'words':
        for n, (w, toks) in enumerate(sorted(WORDS.items())):
            if n % 8 == chunk[1]:
                for l, lt in SIDES:
                    for r, rt in SIDES:
                        text = ' '.join(x for x in (l, w, r) if x)
                        judge([text], 3, MLE_NAME, 1, ctx, sents=[lt + toks + rt])
    elif kind == 'wordlist':
        items = sorted(WORDS.items())
        for order in (1, 2, 3, 4):
            for procs in (1, 2, 3):
                judge(['\n'.join(w for w, _ in items)], order, MLE_NAME, procs, ctx, sents=[t for _, t in items])
                judge([w for w, _ in items], order, MLE_NAME, procs, ctx, sents=[t for _, t in items])
                judge(['\n'.join('the %s cat' % w for w, _ in items)] * 2, order, MLE_NAME, procs, ctx, sents=[['the'] + t + ['cat'] for _, t in items] * 2)
    elif kind == 'long':
        # long sentences and texts, every order up to six
        for n in (5, 6, 7, 49, 50, 51, 52, 99, 101, 130, 257) if chunk[1] == 0 else (500, 1001, 2050):
            for order in range(1, 7):
                words = ['abcdefg'[(i * i) % 7] * (1 + i % 3) for i in range(n)]
                judge([' '.join(words)], order, MLE_NAME, 2, ctx, sents=[words])
                judge([' '.join(words[:n // 2] + ['?'] + words[n // 2:] + ['Bob'] + words)], order, MLE_NAME, 1, ctx, sents=[words[:n // 2] + ['?'], words[n // 2:] + ['Bob'] + words])
    elif kind == 'rare':
        # an n-gram that is very unlikely: once among many, in a large vocabulary
        for size in (300, 4000):
            abc = 'abcdefghijklmnopqrstuvwxyz'
            name = lambda i: 'v' + ''.join(abc[i // 26 ** k % 26] for k in range(3))
            lines = ['%s x%s' % (name(i), name(i)) for i in range(size)]
            for m in (2, 3, 4):
                lines += ['m%s n%s' % (abc[m], abc[m])] * m
            lines += ['top rest'] * size + ['top last']
            toks = [l.split() for l in lines]
            judge(['\n'.join(lines[:size // 2]), '\n'.join(lines[size // 2:])], 2, MKN_NAME, 2, ctx, sents=toks)
            judge(['\n'.join(lines)], 2, MLE_NAME, 2, ctx, sents=toks)
    elif kind == 'huge':
        for n in (25000, 120000):
            words = ['abcdefg'[(i * i) % 7] * (1 + i % 3) for i in range(n)]
            sents = [words[i:i + 40] for i in range(0, n, 40)]
            judge(['\n'.join(' '.join(s) for s in sents), 'a b'], 1, MLE_NAME, 2, ctx, sents=sents + [['a', 'b']])
    elif kind == 'many':
        # many texts, high counts
        for n in (100, 101, 256, 300) if chunk[1] == 0 else (1000, 1025):
            for procs in (1, 7, 8) if n <= 300 else (8, 16):
                judge(['a b \n b %s' % 'cdef'[i % 4] for i in range(n)], 2, MLE_NAME, procs, ctx)
    elif kind == 'default':
        from scrappybara.exceptions import ArgumentValueError
        from scrappybara.langmodel.language_model_builder import ModifiedKneserNeyMinOrderError
        for args, exc in (((1,), ModifiedKneserNeyMinOrderError), ((0,), ModifiedKneserNeyMinOrderError), ((1, MKN_NAME), ModifiedKneserNeyMinOrderError),
                          ((2, 'x'), ArgumentValueError), ((2, ''), ArgumentValueError), ((2, None), ArgumentValueError), ((2, 'MLE'), ArgumentValueError)):
            ok, r = ctx.call(LMB, *args)
            if ok or not isinstance(r, exc):
                ctx.fail({'args': args}, 'arguments %r were not refused' % (args,))
            else:
                ctx.done(args)
        # default number of processes
        judge(['a b', 'b a ? b', 'a'], 2, MLE_NAME, None, ctx)
        # one builder used twice
        root = lmfix._own_dir()
        boot.set_data_dir(root)
        with contextlib.redirect_stdout(io.StringIO()):
            b = LMB(2, smoothing=MLE_NAME, nb_processes=2)
            b(iter(['a b', 'c d']))
            first = [read_file(root / 'langmodel' / ('%d_grams.txt' % n)) for n in (1, 2)]
            b(iter(['x y']))
            b(iter(['a b', 'c d']))
            again = [read_file(root / 'langmodel' / ('%d_grams.txt' % n)) for n in (1, 2)]
        if [sorted(f) for f in first] != [sorted(f) for f in again]:
            ctx.fail({'reuse': True}, 'a builder used again builds a different model: %r %r' % (first, again))
        else:
            ctx.done('reuse')
    else:
        real_pool(True)
        try:
            k = chunk[1]
            judge(['a b', 'b a ? b', 'a', 'I b', 'c'], 2, MLE_NAME, k + 1, ctx)
            judge([], 2, MLE_NAME, k + 1, ctx)
            judge(['a b'] * (k + 1), 2, MLE_NAME, k + 1, ctx)
            n, lines = rich_corpora()[k]
            judge([' \n '.join(lines)], n, MKN_NAME, k + 1, ctx)
            judge([' \n '.join(lines[:3]), ' ? '.join(lines[3:])], n, MKN_NAME, k + 1, ctx)
        finally:
            real_pool(False)


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    if 'texts' in case:
        judge(case['texts'], case['order'], case['smoothing'], case['processes'], ctx)
    else:
        run(('default', 0), ctx)
    return ctx.fails[0][1] if ctx.fails else None
