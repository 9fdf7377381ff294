"""Language model look-ups: all small n-gram tables x minimum counts x queries."""
import itertools

from .. import boot, lmfix
from ..core import exc_text

PROP = 'C25'
TITLE = 'Language model look-ups'
RULE = 'every answer equals the one computed from the written table; non-trivial: the table has known and dropped n-grams'
ASSUMES = ['the order among equally likely n-grams is not judged']


def setup():
    boot.boot()


UNI = ['a', 'b', 'c']
BI = ['a b', 'b a', 'a a']
TRI = ['a b a', 'b b b']
UNKNOWN = ['zz', 'a zz', 'A', '', ' ', 'a  b', 'b a b', 'a b a b', ' a', 'a ', 'a\n', 'A b']


def BOUNDS(tier):
    return {'tables': 'all tables over 3 one-word, %d two-word and %d three-word n-grams with counts 1..3 (0: absent) and three probability patterns, in falling and rising file order' % (
                (2, 1) if tier == 'quick' else (3, 2)),
            'models': 'every requested order and minimum count 1..4 per order',
            'queries': 'membership, minimum counts 0..5, size, top lists of order 1..4 with limits none, 0..6, best of every selection of up to 3 (also repeated and unknown)'}


def chunks(tier):
    out = []
    nb, nt = (2, 1) if tier == 'quick' else (3, 2)
    for uc in itertools.product(range(4), repeat=3):
        out.append(('small', uc, nb, nt, tier))
    out.append(('wide', 0))
    out += [('best', k) for k in range(4)] + [('tiny', k) for k in range(4)] + [('select', 0)]
    return out


PATTERNS = {'distinct': lambda i: 0.5 / (i + 1), 'rising': lambda i: 0.01 * (i + 1), 'tied': lambda i: (0.25, 0.125)[i % 2]}


def model(rows, mins):
    """what the model should know: {ngram: (count, proba)}"""
    return {g: (c, p) for g, c, p in rows if len(g.split()) <= len(mins) and c >= mins[len(g.split()) - 1]}


def load(rows, orders, mins):
    root = lmfix._own_dir()
    for n in range(1, orders + 1):
        boot.write_ngrams(n, [r for r in rows if len(r[0].split()) == n], root)
    boot.set_data_dir(root)
    from scrappybara.langmodel.language_model import LanguageModel
    return LanguageModel(*mins)


def top_ok(got, known, order, limit):
    want = sorted(((g, c, p) for g, (c, p) in known.items() if len(g.split()) == order), key=lambda r: -r[2])
    if not isinstance(got, list):
        got = list(got)
    n = len(want) if limit is None else min(limit, len(want))
    if [round(r[2], 15) for r in got] != [round(r[2], 15) for r in want[:n]]:
        return False
    keys = [tuple(r) for r in got]
    return len(set(keys)) == len(keys) and set(k[0] for k in keys) <= {w[0] for w in want} and all(
        known[k[0]][0] == k[1] and abs(known[k[0]][1] - k[2]) < 1e-15 for k in keys)


def check(lm, known, ctx, full):
    """yields (question, answer, ok)"""
    everything = UNI + BI + TRI + UNKNOWN
    bad = []

    def ask(name, fn, ok):
        good, r = ctx.call(fn)
        if not good:
            bad.append('%s: %s' % (name, exc_text(r)))
        elif not ok(r):
            bad.append('%s answers %r' % (name, r))
    ask('len', lambda: len(lm), lambda r: r == len(known))
    for g in everything:
        ask('%r in model' % g, lambda: g in lm, lambda r: r == (g in known))
        ask('has_ngram(%r)' % g, lambda: lm.has_ngram(g), lambda r: r is (g in known) or r == (g in known))
        for n in range(0, 6):
            ask('has_ngram(%r, %d)' % (g, n), lambda: lm.has_ngram(g, n), lambda r: bool(r) == (n >= 1 and g in known and known[g][0] >= n))
    for order in range(1, 5):
        for limit in (1, None, 3, 0, 2, 4, 5, 6, None):
            ask('top_ngrams(%d, %r)' % (order, limit), lambda: lm.top_ngrams(order, limit), lambda r: top_ok(r, known, order, limit))
        ask('top_ngrams(%d)' % order, lambda: lm.top_ngrams(order), lambda r: top_ok(r, known, order, None))
    pool = (UNI + BI + ['zz', 'a b a']) if full else ['a', 'b', 'a b', 'zz']
    for k in range(0, 4 if full else 3):
        for sel in itertools.product(pool, repeat=k):
            kn = [g for g in sel if g in known]
            best = {g for g in kn if known[g][1] == max(known[h][1] for h in kn)} if kn else {None}
            ask('best_ngram%r' % (sel,), lambda: lm.best_ngram(*sel), lambda r: r in best)
    return bad


def run(chunk, ctx):
    if chunk[0] == 'small':
        _, uc, nb, nt, tier = chunk
        for bc in itertools.product(range(4), repeat=nb):
            for tc in itertools.product((0, 2) if nt > 1 else (0, 1, 3), repeat=nt):
                counts = list(zip(UNI, uc)) + list(zip(BI, bc)) + list(zip(TRI, tc))
                for pname in PATTERNS:
                    rows = [(g, c, PATTERNS[pname](i)) for i, (g, c) in enumerate(counts) if c]
                    for mins in minlists(sum(uc) + sum(bc) + sum(tc), pname, tier):
                        case = {'rows': rows, 'mins': mins}
                        judge(case, ctx, False)
    elif chunk[0] == 'select':
        # the best of many
        n = 300
        rows = [('w%d' % i, 1, (1 + (i * 7919) % n) / (4.0 * n)) for i in range(n)]
        probs = {g: p for g, _, p in rows}
        ok, lm = ctx.call(load, rows, 1, (1,))
        for size in (5, 10, 20, 30, 33, 64, 65, 100, 128, 129, 200, 257, 300) if ok else ():
            for at in range(0, n - size + 1, max(1, (n - size) // 6)):
                sel = [g for g, _, _ in rows[at:at + size]]
                for s in (sel, sel[::-1], ['zz%d' % i for i in range(size)] + sel, sel + sel):
                    good, r = ctx.call(lm.best_ngram, *s)
                    if not good or r != max(sel, key=probs.get):
                        ctx.fail({'select': [at, size]}, 'the best of %d n-grams is %r' % (len(s), r if good else exc_text(r)))
                    else:
                        ctx.done(('select', at, size, len(s)))
        if not ok:
            ctx.fail({'select': True}, exc_text(lm))
    elif chunk[0] in ('best', 'tiny'):
        # probabilities that differ by orders of magnitude or by a hair
        probs = [None, 0.3, 0.3 - 1e-12, 1e-12] if chunk[0] == 'best' else [None, 3e-17, 2e-17, 1e-16]
        names = ['a', 'b', 'a b', 'c']
        for rest in itertools.product(probs, repeat=3):
            vals = (probs[chunk[1]],) + rest
            rows = [(g, 2, p) for g, p in zip(names, vals) if p]
            known = model(rows, (1, 1))
            ok, lm = ctx.call(load, rows, 2, (1, 1))
            if not ok:
                ctx.fail({'rows': rows, 'mins': (1, 1)}, exc_text(lm))
                continue
            bad = None
            for k in range(0, 5):
                for sel in itertools.product(names + ['zz'], repeat=k):
                    kn = [g for g in sel if g in known]
                    best = {g for g in kn if known[g][1] == max(known[h][1] for h in kn)} if kn else {None}
                    ok, r = ctx.call(lm.best_ngram, *sel)
                    if not ok or r not in best:
                        bad = 'best_ngram%r answers %r' % (sel, r if ok else exc_text(r))
            if bad:
                ctx.fail({'rows': rows, 'mins': (1, 1)}, bad)
            else:
                ctx.done(tuple(rows))
    else:
        # larger tables: sizes and limits
        for n in (10, 100, 1000):
            rows = [('w%d' % i, 1 + i % 7, (1 + (i * 7919) % n) / (2.0 * n)) for i in range(n)] + [
                ('w%d w%d' % (i, i + 1), 1 + i % 5, (1 + (i * 7907) % n) / (3.0 * n)) for i in range(n)]
            for mins in ((1,), (3,), (7,), (8,), (1, 1), (1, 5), (5, 1), (10, 10)):
                case = {'rows': rows, 'mins': mins}
                known = model(rows, mins)
                ok, lm = ctx.call(load, rows, 2, mins)
                if not ok:
                    ctx.fail({'n': n, 'mins': mins}, exc_text(lm))
                    continue
                bad = []
                if len(lm) != len(known):
                    bad.append('len %d' % len(lm))
                for g, c, p in rows:
                    if (g in lm) != (g in known) or lm.has_ngram(g, c) != (g in known) or lm.has_ngram(g, c + 1):
                        bad.append(g)
                for order in (1, 2, 3):
                    for limit in (None, 0, 1, n - 1, n, n + 1):
                        if not top_ok(lm.top_ngrams(order, limit), known, order, limit):
                            bad.append('top_ngrams(%d, %r)' % (order, limit))
                if bad:
                    ctx.fail({'n': n, 'mins': mins}, bad[0])
                else:
                    ctx.done((n, mins))


def minlists(salt, pname, tier):
    if tier != 'quick':
        return [m for k in (1, 2, 3) for m in itertools.product((1, 2, 3, 4)[:(4 if k < 3 else 3)], repeat=k)]
    base = [(1,), (2,), (4,), (1, 1), (1, 2), (2, 1), (3, 2), (1, 1, 1), (2, 3, 1), (3, 1, 2)]
    if pname == 'distinct':
        return base
    return [base[salt % 10], (1, 1, 1)]


def judge(case, ctx, full=False):
    rows, mins = [tuple(r) for r in case['rows']], tuple(case['mins'])
    for direction in (1, -1):
        known = model(rows, mins)
        ok, lm = ctx.call(load, rows[::direction], max(3, len(mins)), mins)
        if not ok:
            ctx.fail(case, 'loading: ' + exc_text(lm))
            return
        bad = check(lm, known, ctx, full)
        if bad:
            ctx.fail(dict(case, reversed_file=direction < 0), '; '.join(bad[:3]))
            return
    ctx.done((tuple(rows), mins), 0 < len(known) < len(rows), {'rows': rows, 'mins': mins})


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    if 'rows' not in case:
        return 'see case'
    judge({'rows': case['rows'], 'mins': case['mins']}, ctx)
    return ctx.fails[0][1] if ctx.fails else None
