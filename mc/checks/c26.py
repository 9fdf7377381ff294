"""Best token in context and next-word suggestions: all small n-gram tables x contexts."""
import itertools

from .. import boot, lmfix
from ..core import exc_text

PROP = 'C26'
TITLE = 'Context decides the best token'
RULE = 'the answer is a candidate with the greatest vector (best n-gram containing it per order, highest order first); ' \
       'suggestions equal the continuations in the table of the longest known end; non-trivial: an n-gram decides'
ASSUMES = ['which of several candidates with equal probabilities wins is not judged', 'candidates and contexts are plain words']


def setup():
    boot.boot()


W = ['a', 'b']
BIS = [' '.join(p) for p in itertools.product(W, repeat=2)]
TRIS = [' '.join(p) for p in itertools.product(W, repeat=3)]
TEXTS = [None] + [' '.join(p) for n in (1, 2) for p in itertools.product(W, repeat=n)]
TEXTS3 = TEXTS + [' '.join(p) for p in itertools.product(W, repeat=3)]
P = {1: 0.001, 2: 0.002}


def BOUNDS(tier):
    return {'order 2': 'all tables over 2 words with 3 probability levels per n-gram (none, low, high) x contexts of up to %d words on each side' % (2 if tier == 'quick' else 3),
            'order 3': 'every %s trigrams and every pair of bigrams at 2 levels x 3 unigram tables x contexts of up to 2 words' % ('one or two' if tier == 'quick' else 'one, two or three'),
            'order 4': 'single 4-grams x rival lower-order n-grams x contexts of up to 4 words',
            'orders 4 to 6': 'one long n-gram with the candidate at every position, the context cut at every length, against a likelier rival of every shorter order',
            'more candidates': '3 to 6 candidates: all tables with 3 levels per unigram and left bigram, 5 right patterns, all orders of the candidates',
            'candidates': 'both orders, with an unknown third one, repeated, single',
            'left-out n-grams': 'likelier n-grams whose count is below the minimum of their order, at every order of 2 to 4, never count',
            'long suggestions': 'ends of 1 to 5 known words in models of order 2 to 6, 1 to 300 continuations, rising and falling file order',
            'close calls': 'probabilities a factor of 1 + 1e-3 to 1 + 1e-9 apart at orders 1 to 3; spelling in upper and lower case; the 120 orders of the lines of a file',
            'suggestions': 'all texts of up to %d words over known and unknown words, all limits' % 3}


def levels(grams, most):
    """all tables that give up to `most` of the n-grams one of two levels"""
    for k in range(most + 1):
        for sel in itertools.combinations(grams, k):
            for lv in itertools.product((1, 2), repeat=k):
                yield dict(zip(sel, lv))


def chunks(tier):
    out = []
    for u in itertools.product((0, 1, 2), repeat=2):
        out.append(('two', u, tier))
    for t in range(24):
        out.append(('three', t, 24, tier))
    out.append(('four', tier))
    out.append(('words', 0))
    out += [('close', 0), ('cases', 0), ('unsorted', 0)]
    out += [('cands', u) for u in itertools.product((0, 1, 2), repeat=3)]
    out += [('deep', n, r) for n in (4, 5, 6) for r in range(3)]
    out += [('mins', n) for n in (2, 3, 4)]
    out += [('long', n) for n in (2, 3, 4, 5, 6)]
    for t in range(8):
        out.append(('next', t, 8, tier))
    return out


def windows(before, tok, after, n):
    toks = before + [tok] + after
    at = len(before)
    return [' '.join(toks[i:i + n]) for i in range(max(0, at - n + 1), at + 1) if i + n <= len(toks)]


def expected(known, order, cands, before, after):
    """set of acceptable answers"""
    if not any(c in known for c in cands):
        return {None}
    b, a = (before or '').split(), (after or '').split()
    vec = {}
    for c in cands:
        v = []
        for n in range(order, 1, -1):
            v.append(max([known.get(g, 0.0) for g in windows(b, c, a, n)] + [0.0]))
        v.append(known.get(c, 0.0))
        vec[c] = tuple(v)
    top = max(vec.values())
    return {c for c in cands if vec[c] == top}


def judge(lm, known, order, cands, before, after, ctx):
    kw = {}
    if before is not None:
        kw['before'] = before
    if after is not None:
        kw['after'] = after
    ok, r = ctx.call(lambda: lm.best_token(*cands, **kw))
    want = expected(known, order, cands, before, after)
    case = {'kind': 'best', 'known': known, 'order': order, 'candidates': list(cands), 'before': before, 'after': after}
    if not ok or r not in want:
        ctx.fail(case, 'best_token answers %r, expected one of %r' % (r if ok else exc_text(r), sorted(map(str, want))))
    else:
        ctx.done((cands, before, after, r, order), len(want) == 1 and bool(before or after), case)


def model(cfg, order, rising=False):
    known = {g: P[l] * (10.0 ** -(len(g.split()) - 1)) for g, l in cfg.items() if l}
    return known, lmfix.load({g: (5, p) for g, p in known.items()}, (1,) * order, rising)


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'two':
        _, u, tier = chunk
        texts = TEXTS if tier == 'quick' else TEXTS3
        for bl in itertools.product((0, 1, 2), repeat=4):
            cfg = dict(zip(W, u))
            cfg.update(zip(BIS, bl))
            known, lm = model(cfg, 2)
            for before, after in itertools.product(texts, repeat=2):
                judge(lm, known, 2, ('a', 'b'), before, after, ctx)
                judge(lm, known, 2, ('zz', 'b', 'a'), before, after, ctx)
            for cands in (('a',), ('zz',), ('b', 'b'), ('a', 'a', 'b'), ('zz', 'yy')):
                judge(lm, known, 2, cands, 'a', 'b', ctx)
                judge(lm, known, 2, cands, None, None, ctx)
    elif kind == 'three':
        _, t, m, tier = chunk
        n = 0
        most_t = 2 if tier == 'quick' else 3
        for tri in levels(TRIS, most_t):
            n += 1
            if n % m != t:
                continue
            bis = levels(BIS, 1) if tier == 'quick' and len(tri) > 1 else levels(BIS, 2)
            for bi in bis:
                for u in ((1, 2), (2, 1)) if tier == 'quick' else ((1, 2), (2, 1), (2, 2), (0, 1), (2, 0)):
                    cfg = dict(zip(W, u))
                    cfg.update(bi)
                    cfg.update(tri)
                    known, lm = model(cfg, 3)
                    texts = TEXTS[1:] if tier == 'quick' else TEXTS
                    if tier == 'quick' and len(tri) > 1:
                        texts = ['a', 'b', 'a b', 'b a'] if n % 2 else [None, 'a a', 'b b']
                    for before, after in itertools.product(texts, repeat=2):
                        judge(lm, known, 3, ('b', 'a'), before, after, ctx)
    elif kind == 'four':
        tier = chunk[1]
        longs = [None] + [' '.join(p) for n in (1, 2, 3, 4) for p in itertools.product(W, repeat=n)]
        if tier == 'quick':
            longs = [None, 'a', 'b', 'a b', 'b a b', 'a a b', 'b b a a']
        for g in itertools.product(W, repeat=4):
            for rival in (None, 'b b', 'a a', 'a b a', 'b b b'):
                cfg = {'a': 1, 'b': 2, ' '.join(g): 1}
                if rival:
                    cfg[rival] = 2
                known, lm = model(cfg, 4)
                for before, after in itertools.product(longs, repeat=2):
                    judge(lm, known, 4, ('a', 'b'), before, after, ctx)
    elif kind == 'cands':
        # three to five candidates in every order; ties at the highest order are decided below it
        for bl in itertools.product((0, 1, 2), repeat=3):
            for al in ((0, 0, 0), (1, 1, 1), (2, 1, 0), (0, 1, 2), (1, 0, 2)):
                cfg = dict(zip(('p', 'q', 'r'), chunk[1]))
                cfg.update(zip(('the p', 'the q', 'the r'), bl))
                cfg.update(zip(('p end', 'q end', 'r end'), al))
                cfg.update({'the': 2, 'end': 1, 'the end': 2})
                known, lm = model(cfg, 2)
                for cands in itertools.permutations(('p', 'q', 'r')):
                    for before, after in (('the', None), ('the', 'end'), (None, 'end'), ('end', 'the'), ('on the', 'end of it'), (None, None)):
                        judge(lm, known, 2, cands, before, after, ctx)
                judge(lm, known, 2, ('zz', 'r', 'q', 'yy', 'p', 'q'), 'the', 'end', ctx)
    elif kind == 'deep':
        # one long n-gram around the candidate at every position, against shorter likelier ones
        _, n, r = chunk
        names = ['w%d' % i for i in range(n)]
        for at in range(n):
            toks = names[:at] + ['p'] + names[at + 1:]
            for rival in [None] + list(range(1, n)):
                cfg = {'p': 1, 'q': 2, ' '.join(toks): 1}
                if rival and rival > 1:
                    lo = max(0, at - rival + 1)
                    cfg[' '.join((toks[:at] + ['q'] + toks[at + 1:])[lo:lo + rival])] = 2
                known, lm = model(cfg, n)
                for cut_b in range(at + 1):
                    for cut_a in range(n - at):
                        before, after = toks[cut_b:at], toks[at + 1:n - cut_a]
                        extra = (['far'] * r, ['off'] * r)
                        judge(lm, known, n, ('p', 'q'), ' '.join((extra[0] if not cut_b else []) + before) or None, ' '.join(after + (extra[1] if not cut_a else [])) or None, ctx)
                        judge(lm, known, n, ('q', 'p', 'zz'), ' '.join(before) or None, ' '.join(after) or None, ctx)
    elif kind == 'mins':
        # n-grams below the minimum count of their order are unknown, however likely they are
        n = chunk[1]
        base = {'p': 1, 'q': 2}
        left = ['w%d' % i for i in range(n - 1)]
        grams = [' '.join(left[len(left) - k + 1:] + [c]) for k in range(2, n + 1) for c in 'pq']
        for cs in itertools.product((3, 5), repeat=len(grams)):
            for ps in itertools.product((1, 2), repeat=len(grams)):
                for mins in itertools.product((3, 4), repeat=n) if n < 4 else ((1,) + (4,) * (n - 1), (4,) * n, (3,) * (n - 1) + (4,), (1, 4) + (3,) * (n - 2)):
                    rows = {g: (5, P[l]) for g, l in base.items()}
                    rows.update({g: (c, P[l] * 10.0 ** -(len(g.split()) - 1)) for g, c, l in zip(grams, cs, ps)})
                    known = {g: p for g, (c, p) in rows.items() if c >= mins[len(g.split()) - 1]}
                    ok, lm = ctx.call(lmfix.load, rows, mins, bool(sum(cs) % 4))
                    if not ok:
                        ctx.fail({'kind': 'mins', 'rows': rows, 'mins': mins}, exc_text(lm))
                        continue
                    judge(lm, known, n, ('p', 'q'), ' '.join(left), None, ctx)
                    judge(lm, known, n, ('q', 'zz', 'p'), ' '.join(left), 'on', ctx)
                    for k in range(1, n):
                        judge_next(lm, known, n, ' '.join(left[-k:]), None, ctx)
                    judge_next(lm, known, n, 'x ' + ' '.join(left), 1, ctx)
    elif kind == 'long':
        n = chunk[1]
        names = ['w%d' % i for i in range(5)]
        for size in (1, 2, 3, 50, 300):
            for rising in (False, True):
                for gap in range(0, n):
                    # continuations of the ends of 1 .. n-1 words except the end of `gap` words
                    known = {w: 0.001 for w in names}
                    for k in range(1, n):
                        if k != gap:
                            known.update({' '.join(names[5 - k:] + ['c%d_%d' % (k, i)]): 0.0001 * (1 + (i * 37) % size) / size for i in range(size)})
                    ok, lm = ctx.call(lmfix.load, {g: (5, p) for g, p in known.items()}, (1,) * n, rising)
                    if not ok:
                        ctx.fail({'kind': 'long', 'size': size, 'gap': gap}, exc_text(lm))
                        continue
                    for k in range(0, 6):
                        for extra in ([], ['zz']):
                            for limit in (None, 0, 1, 2, size - 1, size, size + 1):
                                judge_next(lm, known, n, ' '.join(extra + names[5 - k:]) if k else ' '.join(extra), limit, ctx)
    elif kind == 'close':
        # probabilities a hair apart, at every order
        for n in (1, 2, 3):
            left = ['w%d' % i for i in range(n - 1)]
            for base in (0.3, 0.001, 1e-9):
                for gap in (1e-3, 1e-4, 1e-6, 1e-9):
                    for order in (n, n + 1, 4):
                        for win in 'pq':
                            known = {' '.join(left + [c]): base * (1 + gap * (c == win)) for c in 'pq'}
                            if n > 1:
                                known.update({'p': 0.01, 'q': 0.01})
                            # as the file holds them
                            known = {g: float('%.17f' % p) for g, p in known.items()}
                            if len(set(known[' '.join(left + [c])] for c in 'pq')) < 2:
                                continue
                            ok, lm = ctx.call(lmfix.load, {g: (5, p) for g, p in known.items()}, (1,) * order)
                            if not ok:
                                ctx.fail({'kind': 'close', 'known': known}, exc_text(lm))
                                continue
                            for cands in (('p', 'q'), ('q', 'p'), ('zz', 'q', 'p')):
                                judge(lm, known, order, cands, ' '.join(left) or None, None, ctx)
                                judge(lm, known, order, cands, ' '.join(['far'] + left), 'off', ctx)
    elif kind == 'cases':
        # words count as they are spelt
        cfg = {'p': 1, 'q': 2, 'the p': 2, 'The q': 1, 'p End': 1, 'the The q': 1, 'P': 2, 'the': 1, 'The': 1, 'p end': 2, 'the P': 1}
        for drop in [()] + [(g,) for g in cfg] + list(itertools.combinations(cfg, 2)):
            known, lm = model({g: l for g, l in cfg.items() if g not in drop}, 3)
            for before in (None, 'the', 'The', 'THE', 'the The', 'The the'):
                for after in (None, 'end', 'End'):
                    for cands in (('p', 'q'), ('P', 'p'), ('Q', 'P', 'q')):
                        judge(lm, known, 3, cands, before, after, ctx)
            for text in ('the', 'The', 'THE', 'the The', 'p', 'P', 'The p'):
                judge_next(lm, known, 3, text, None, ctx)
    elif kind == 'unsorted':
        # files whose lines come in any order
        names = ['c%d' % i for i in range(5)]
        for perm in itertools.permutations(range(5)):
            known = {'a': 0.001}
            known.update({'a %s' % names[i]: 0.0001 * (1 + i) for i in perm})
            root = lmfix._own_dir()
            for n in (1, 2):
                boot.write_ngrams(n, [(g, 5, p) for g, p in known.items() if len(g.split()) == n], root)
            boot.set_data_dir(root)
            from scrappybara.langmodel.language_model import LanguageModel
            ok, lm = ctx.call(LanguageModel, 1, 1)
            if not ok:
                ctx.fail({'kind': 'unsorted', 'known': known}, exc_text(lm))
                continue
            for limit in (None, 0, 1, 2, 3, 4, 5, 6):
                judge_next(lm, known, 2, 'a', limit, ctx)
    elif kind == 'words':
        # contexts as real text: the tokenizer cuts them, the nearest words count; empty text is no context
        known, lm = model({'personnel': 1, 'personal': 2, 'talented personnel': 2, 'personnel carriers': 2, 'personal .': 1,
                           "n't personnel": 1, 'i': 1, 'personal carriers': 1}, 2)
        for before, seen_b in ((None, ''), ('', ''), ('talented', 'talented'), ('very talented', 'very talented'), ("don't", "do n't"), ('talented,', 'talented ,'), ('  talented ', 'talented')):
            for after, seen_a in ((None, ''), ('', ''), ('carriers', 'carriers'), ('carriers of', 'carriers of'), ('.', '.'), ('(carriers)', '( carriers )')):
                kw = {k: v for k, v in (('before', before), ('after', after)) if v is not None}
                ok, r = ctx.call(lambda: lm.best_token('personnel', 'personal', **kw))
                want = expected(known, 2, ('personnel', 'personal'), seen_b, seen_a)
                if not ok or r not in want:
                    ctx.fail({'kind': 'words', 'before': before, 'after': after}, 'best_token answers %r, expected %r' % (r if ok else exc_text(r), want))
                else:
                    ctx.done((before, after, r))
    else:
        _, t, m, tier = chunk
        n = 0
        texts = [' '.join(p) for k in (1, 2, 3) for p in itertools.product(['a', 'b', 'zz'], repeat=k)] + ['a, b', 'A', "a b'", 'b .', '']
        for tri in levels(TRIS, 2 if tier == 'quick' else 3):
            n += 1
            if n % m != t:
                continue
            for bi in levels(BIS, 1 if tier == 'quick' else 2):
                for order in (1, 2, 3):
                    cfg = {'a': 1, 'b': 2}
                    cfg.update(bi)
                    cfg.update(tri)
                    cfg = {g: l for g, l in cfg.items() if len(g.split()) <= order}
                    known, lm = model(cfg, order, bool(n // 8 % 2))
                    for text in texts[:39] if n % 3 else texts:
                        for limit in (None, 0, 1, 2, 3) if n % 5 == 0 else (None, 1):
                            judge_next(lm, known, order, text, limit, ctx)


CUT = {'a, b': ['a', ',', 'b'], "a b'": ['a', "b'"], 'b .': ['b', '.'], 'A': ['A'], '': []}


def judge_next(lm, known, order, text, limit, ctx):
    toks = CUT.get(text, text.split())
    want = []
    for k in range(min(order - 1, len(toks)), 0, -1):
        head = ' '.join(toks[-k:])
        want = sorted(((g.split()[-1], p) for g, p in known.items() if ' '.join(g.split()[:-1]) == head), key=lambda x: -x[1])
        if want:
            break
    ok, r = ctx.call(lambda: lm.next_word(text, limit) if limit is not None else lm.next_word(text))
    case = {'kind': 'next', 'known': known, 'order': order, 'text': text, 'limit': limit}
    if ok:
        got = [tuple(x) for x in r]
        n = len(want) if limit is None else min(limit, len(want))
        good = len(got) == n and len(set(got)) == n and all(
            abs(g[1] - w[1]) < 1e-15 and any(g[0] == v[0] and abs(g[1] - v[1]) < 1e-15 for v in want) for g, w in zip(got, want))
    if not ok or not good:
        ctx.fail(case, 'next_word answers %r, expected %r' % (r if ok else exc_text(r), want))
    else:
        ctx.done((text, limit, tuple(got), order), bool(got), case)


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    if case['kind'] in ('words', 'long', 'mins', 'close', 'cases', 'unsorted'):
        run((case['kind'], 4) if case['kind'] in ('long', 'mins') else (case['kind'], 0), ctx)
    else:
        lm = lmfix.load({g: (5, p) for g, p in case['known'].items()}, (1,) * case['order'])
        if case['kind'] == 'best':
            judge(lm, case['known'], case['order'], tuple(case['candidates']), case['before'], case['after'], ctx)
        else:
            judge_next(lm, case['known'], case['order'], case['text'], case['limit'], ctx)
    return ctx.fails[0][1] if ctx.fails else None
