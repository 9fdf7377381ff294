"""Smoothing: every small table of counts from a corpus, every number of processes, every order of the n-grams."""
import itertools

from .. import boot, reflmb
from ..core import exc_text

PROP = 'C28'
TITLE = 'Smoothed probabilities'
RULE = 'every probability equals the formula evaluated with exact fractions (relative 1e-9); poor data is refused exactly ' \
       'when a discount is undefined; non-trivial: the table was smoothed'
ASSUMES = ['tables of counts are those of some corpus (every part of an n-gram is itself counted)']

MLE = MKN = NG = REFUSE = None


def setup():
    global MLE, MKN, NG, REFUSE
    boot.boot()
    from scrappybara.langmodel.mle_smoother import MLESmoother
    from scrappybara.langmodel.mkn_smoother import MKNSmoother, ModifiedKneserNeyNotEnoughDataError
    from scrappybara.langmodel.ngram import Ngram
    MLE, MKN, NG, REFUSE = MLESmoother, MKNSmoother, Ngram, ModifiedKneserNeyNotEnoughDataError


def store(counts):
    out = []
    for g, c in counts:
        n = NG(g)
        n.count = c
        out.append(n)
    return out


def arrangements(items, tier):
    items = list(items)
    yield items
    yield items[::-1]
    yield sorted(items)
    yield sorted(items, key=lambda x: (-x[1], x[0]))
    if tier != 'quick':
        for k in range(1, len(items), max(1, len(items) // 6)):
            yield items[k:] + items[:k]


def judge(counts, max_order, kind, procs, arr, ctx, tag):
    case = {'counts': list(arr), 'order': max_order, 'kind': kind, 'processes': procs}
    want = None
    if kind == 'mkn':
        try:
            want = reflmb.mkn(counts, max_order)
        except reflmb.Refused:
            want = 'refused'
    else:
        want = reflmb.mle(counts)
    ok, r = ctx.call(lambda: (MKN if kind == 'mkn' else MLE)(store(arr), max_order, procs)())
    if want == 'refused':
        if ok or not isinstance(r, REFUSE):
            ctx.fail(case, 'data too poor for the discounts was not refused: %s' % (exc_text(r) if not ok else 'probabilities were calculated'))
        else:
            ctx.done((tag, 'refused', tuple(sorted(counts.items()))), False)
        return
    if not ok:
        ctx.fail(case, exc_text(r))
        return
    got = {}
    for n in range(1, max_order + 1):
        ok, grams = ctx.call(lambda: list(r.ngrams(n)))
        if not ok:
            ctx.fail(case, exc_text(grams))
            return
        for g in grams:
            if g.text in got or reflmb.order(g.text) != n:
                ctx.fail(case, 'n-gram %r listed twice or under order %d' % (g.text, n))
                return
            got[g.text] = (g.count, g.proba)
    if set(got) != set(counts):
        ctx.fail(case, 'n-grams %r lost or invented' % sorted(set(got) ^ set(counts))[:5])
        return
    for g, (c, p) in got.items():
        if c != counts[g] or p is None or not abs(float(p) - float(want[g])) <= 1e-9 * abs(float(want[g])) + 1e-15:
            ctx.fail(case, '%r has count %r and probability %r, expected %d and %.12f' % (g, c, p, counts[g], float(want[g])))
            return
    ctx.done((kind, max_order, tuple(sorted((g, round(float(v[1]), 9)) for g, v in got.items()))), True, {'counts': list(arr)[:12], 'order': max_order, 'kind': kind, 'processes': procs})


WORDS = ['a', 'b', 'c']


def repeated(sents, mult):
    out = []
    for s, m in zip(sents, mult):
        out += [s.split()] * m
    return out


# sentences whose repetition 1..5 times gives every count class at every order
SETS = {
    2: [('a b', 'b a', 'b c', 'c a'), ('a a', 'a b', 'a c', 'b c'), ('a b', 'c d', 'e f', 'g h'), ('a b c', 'b a', 'c c', 'a a'),
        ('a a a', 'b b', 'a b', 'b c'), ('a b', 'b c a', 'c b', 'a c b'), ('a b', 'a c', 'a d', 'a e'), ('b a', 'c a', 'd a', 'e a')],
    3: [('a b c', 'b c a', 'c a b', 'a c b'), ('a b c', 'a b d', 'a b e', 'a b f'), ('c a b', 'd a b', 'e a b', 'f a b'), ('a b c', 'd e f', 'g h i', 'j k l'),
        ('a a a a', 'a b a', 'b a a', 'b b a b'), ('a b c d', 'b c', 'c d a', 'a c d b'), ('a b a', 'b a b', 'a a b', 'b b a')],
    4: [('a b c d', 'b c d a', 'c d a b', 'd a b c'), ('a b c d e', 'x b c d', 'y b c z', 'a b c e'), ('a b c d', 'e b c d', 'f b c d', 'g b c d'),
        ('a a a a a', 'a b a b', 'b a b a a', 'c a b a')],
    5: [('a b c d e', 'b c d e a', 'c d e a b', 'd e a b c'), ('a b c d e f', 'x b c d e', 'y b c d z', 'a b c d d'), ('a a a a a a', 'a b a b a b', 'b a b a a a', 'c a b a b')],
}


def mults(tier):
    top = [(1, 2, 3, 4)] + [p for p in itertools.permutations((1, 2, 3, 4)) if p != (1, 2, 3, 4)]
    if tier != 'quick':
        top += list(itertools.product((1, 2, 3, 4, 5), repeat=4))
    else:
        top = top + [(1, 1, 2, 3), (1, 2, 3, 3), (2, 2, 3, 4), (1, 2, 2, 4), (5, 1, 2, 3), (1, 2, 4, 4), (1, 2, 3, 5), (1, 1, 1, 1)]
    return list(dict.fromkeys(top))


RICH = ['d e', 'd f d f', 'e d e d e d', 'f f f f f']


def BOUNDS(tier):
    return {'maximum likelihood': 'all count tables over 2 words up to order 3 from corpora of up to %d sentences; processes 1..9; 4+ arrangements' % (2 if tier == 'quick' else 3),
            'modified Kneser-Ney': 'orders 2..5: %d sentence sets x %d multiplicities of their sentences x extra material that fills the count classes; processes 1..12' % (
                sum(map(len, SETS.values())), len(mults(tier))),
            'wide': 'a word after and before up to %d others; counts up to 1e12' % (70000 if tier == 'quick' else 300000),
            'arithmetic': 'exact fractions, compared to 1e-9'}


def chunks(tier):
    out = [('mle', k, 8, tier) for k in range(8)] + [('mleproc', tier)]
    for n in SETS:
        for i in range(len(SETS[n])):
            out.append(('mkn', n, i, tier))
    out.append(('mknproc', tier))
    out += [('wide', n) for n in ((3000, 70000) if tier == 'quick' else (3000, 70000, 300000))]
    return out


def counts_of(sents, max_order):
    return dict(reflmb.count(sents, max_order))


def filler(max_order):
    """material with its own words that makes every count class 1..4 non-empty at every order"""
    base = ['p', 'q', 'r', 's', 't'][:max_order]
    out = []
    for k, w in enumerate(['u', 'v', 'w', 'x'], 1):
        out += [[w + x for x in base]] * k
    return out


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'mle':
        _, k, m, tier = chunk
        sents = [list(p) for n in (1, 2, 3) for p in itertools.product('ab', repeat=n)]
        corpora = [list(c) for n in range(0, 3 if tier == 'quick' else 4) for c in itertools.combinations_with_replacement(range(len(sents)), n)]
        for i, c in enumerate(corpora):
            if i % m != k:
                continue
            for order in (1, 2, 3):
                counts = counts_of([sents[j] for j in c], order)
                for ai, arr in enumerate(arrangements(counts.items(), tier)):
                    judge(counts, order, 'mle', 1 + (i + ai) % 4, arr, ctx, 'mle')
    elif kind == 'mleproc':
        for n in list(range(0, 14)) + [31, 64, 100, 257]:
            counts = {'w%s' % chr(97 + i % 26) * (1 + i // 26): 1 + i % 5 for i in range(n)}
            for procs in list(range(1, 10)) + [16, 33, 70, 130]:
                judge(counts, 1, 'mle', procs, list(counts.items()), ctx, 'mle')
        for big in (10 ** 3, 40000, 70000, 10 ** 6, 10 ** 9, 3 * 10 ** 9, 10 ** 12):
            judge({'a': big, 'b': 1, 'a b': big - 1, 'b a': 7}, 2, 'mle', 2, [('a', big), ('b', 1), ('a b', big - 1), ('b a', 7)], ctx, 'mle')
    elif kind == 'mkn':
        _, n, i, tier = chunk
        sents = SETS[n][i]
        for mi, mult in enumerate(mults(tier)):
            for fill in (False, True):
                corpus = repeated(sents, mult) + (filler(n) if fill else [])
                for order in range(2, n + 1):
                    counts = counts_of(corpus, order)
                    for ai, arr in enumerate(arrangements(counts.items(), 'quick')):
                        if tier == 'quick' and ai != mi % 4:
                            continue
                        judge(counts, order, 'mkn', 1 + (mi + ai) % 5, arr, ctx, 'mkn')
    elif kind == 'wide':
        # one word after very many others, and before very many others
        n = chunk[1]
        counts = {'end': n, 'start': n}
        for i in range(n):
            counts['w%d' % i] = 2
            counts['w%d end' % i] = 1
            counts['start w%d' % i] = 1
        for k in (2, 3, 4):
            counts.update({'k%d' % k: k, 'l%d' % k: k, 'k%d l%d' % (k, k): k})
        for procs in (1, 3):
            judge(counts, 2, 'mkn', procs, list(counts.items()), ctx, 'mkn')
            judge(counts, 2, 'mle', procs, list(counts.items()), ctx, 'mle')
    else:
        for n in (2, 3, 4, 5):
            for i, sents in enumerate(SETS[n]):
                corpus = repeated(sents, (1, 2, 3, 4)) + filler(n)
                counts = counts_of(corpus, n)
                for procs in list(range(1, 13)) + [40, 100]:
                    judge(counts, n, 'mkn', procs, list(counts.items()), ctx, 'mkn')
        # a single count class missing at a single order
        for n in (2, 3, 4):
            for at in range(2, n + 1):
                for miss in (1, 2, 3, 4):
                    corpus = []
                    for m in range(2, n + 1):
                        for k, w in enumerate('uvwx', 1):
                            if m != at or k != miss:
                                corpus += [[chr(96 + m) + w + x for x in 'pqrst'[:m]]] * k
                    # longer n-grams would fill the gap again, so they bring five occurrences
                    if at < n:
                        corpus = [s for s in corpus if len(s) <= at]
                    counts = counts_of(corpus, at)
                    judge(counts, at, 'mkn', 1, list(counts.items()), ctx, 'mkn')
        # frequent n-grams: counts well above 3 in every position
        for reps in (5, 10, 100, 1000):
            corpus = repeated(SETS[3][0], (reps, 2 * reps, 1, 3)) + filler(3)
            counts = counts_of(corpus, 3)
            judge(counts, 3, 'mkn', 2, list(counts.items()), ctx, 'mkn')


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    arr = [tuple(x) for x in case['counts']]
    judge(dict(arr), case['order'], case['kind'], case['processes'], arr, ctx, 'replay')
    return ctx.fails[0][1] if ctx.fails else None
