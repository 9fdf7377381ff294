"""Training data: every small set of labelled sentences and every shuffle, against what the networks are shown in use."""
import itertools
import random

import numpy as np

from .. import boot, nets, parsefix
from ..core import exc_text
from .c14 import LABELS, gen_projective, labels, projective, sample, well

PROP = 'C15'
TITLE = 'Training data equals inference inputs'
RULE = 'rows of the training tensors, as a multiset, equal the rows shown to the same network when the sentences are parsed, ' \
       'each with its own gold label; non-trivial: two or more samples'
ASSUMES = ['random.shuffle is replaced by every permutation (up to 3 sentences) or a set of fixed ones; rows are judged as a multiset']

LD = P = CS = WS = None


def setup():
    global LD, P, CS, WS
    parsefix.setup()
    import scrappybara.syntax.labelled_data as ld
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.parser import Parser
    from scrappybara.syntax.wordset import Wordset
    LD = ld
    P = Parser(1, 4)
    CS, WS = Charset().load(), Wordset().load()


def BOUNDS(tier):
    return {'sentences': 'all sets of 1..3 from a pool of %d labelled sentences (with words without dependency, unknown and long words, one word, 49 and 50 words, the same words labelled differently, crossing links)' % len(pool()),
            'large': 'sets of 4 to %d sentences, many alike' % (520 if tier == 'quick' else 2500),
            'trees': 'all projective trees of up to %d words' % (4 if tier == 'quick' else 5),
            'shuffles': 'all permutations of up to 6 samples, 8 fixed ones beyond',
            'fit': 'the three networks are fitted on the extracted data; the tensors that reach the network are compared'}


def pool():
    return [
        [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('cat', 'NOUN', 'OBJ', 1), ('.', 'PUNCT', 'NODEP', -1)],
        [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('dog', 'NOUN', 'OBJ', 1)],
        [('run', 'VERB', 'ROOT', -1)],
        [('"', 'PUNCT', 'NODEP', -1), ('The', 'DET', 'ART', 2), ('antidisestablishmentarianism', 'NOUN', 'ROOT', -1), ('"', 'PUNCT', 'NODEP', -1)],
        [('é', 'SYM', 'CALLEE', 1), ('Run', 'VERB', 'ROOT', -1), (',', 'PUNCT', 'NODEP', -1), ('!', 'PUNCT', 'NODEP', -1), ('walk', 'VERB', 'AND', 1)],
        [('w%d' % i, 'NOUN', 'ROOT' if i == 25 else 'CPL', -1 if i == 25 else 25) for i in range(50)],
        # the same words as the second one, read differently
        [('I', 'PRON', 'SUBJ', 1), ('eat', 'NOUN', 'CPL', 2), ('dog', 'VERB', 'ROOT', -1)],
        # same words up to case and blanks, links that cross
        [('I', 'PRON', 'ROOT', -1), ('Eat', 'VERB', 'CPL', 3), ('dog', 'NOUN', 'OBJ', 0), ('Run', 'NOUN', 'AND', 0)],
        [('v%d' % i, nets.TAGS[1 + i % 16], 'ROOT' if i == 0 else LABELS[i % 22] if i % 7 else 'NODEP', -1 if i == 0 or not i % 7 else i - 1 if (i - 1) % 7 or i == 1 else 0)
         for i in range(49)],
    ]


def large(n):
    """n labelled sentences, many alike"""
    out = []
    for i in range(n):
        k = i % 5
        w = ['x%d' % (i % 11), 'eat', 'y%d' % (i // 2)][:2 + (k > 1)]
        out.append([(t, nets.TAGS[1 + (i + j) % 16], 'ROOT' if j == 1 else LABELS[(i + j) % 22], -1 if j == 1 else 1) for j, t in enumerate(w)])
        if k == 4:
            out[-1].append(('.', 'PUNCT', 'NODEP', -1))
    return out


def chunks(tier):
    out = [('fit', 0)]
    out += [('sets', n, k) for n in (1, 2, 3) for k in range(n * n)]
    out += [('large', n) for n in ((4, 5, 8, 33, 100, 520) if tier == 'quick' else (4, 5, 8, 33, 100, 257, 520, 1000, 2500))]
    out += [('trees', n) for n in range(1, (4 if tier == 'quick' else 5) + 1)]
    return out


def shuffles(n):
    if n <= 3:
        return [list(p) for p in itertools.permutations(range(n))]
    base = list(range(n))
    return [base, base[::-1], base[1:] + base[:1], base[::2] + base[1::2], sorted(base, key=lambda i: (i * 7919) % n)]


def rows(arrs):
    """One hashable row per sample from a list of parallel tensors"""
    out = []
    for b in range(len(arrs[0])):
        out.append(tuple(np.asarray(a[b]).astype(np.float64).tobytes() for a in arrs))
    return sorted(out)


def extract(fn, sents, perm_no, ctx):
    real = random.shuffle

    def fake(lst, *a):
        ps = shuffles(len(lst))
        p = ps[perm_no % len(ps)]
        lst[:] = [lst[i] for i in p]
    random.shuffle = fake
    try:
        return ctx.call(fn, [[tuple(t) for t in s] for s in sents], CS, WS)
    finally:
        random.shuffle = real


def padded(codes):
    return [0] + codes + [0] * (nets.SENT - 1 - len(codes))


def reference(sents):
    """Training rows, written down independently, per network"""
    t, d, x = [], [], []
    for s in sents:
        toks = [w[0] for w in s]
        ch, wv = parsefix.ref_chars(toks), parsefix.ref_words(toks)
        tg, dp = padded([nets.TAG[w[1]] for w in s]), padded([nets.DEP[w[2]] for w in s])
        t.append((ch, wv, tg))
        d.append((tg, ch, wv, dp))
        for i, j, tr in gold(s):
            m1, m2 = [0] * nets.SENT, [0] * nets.SENT
            m1[i + 1] = m2[j + 1] = 1
            x.append((tg, dp, ch, wv, m1, m2, tr))
    return t, d, x


def gold(s):
    return [(int(a), int(b), int(c)) for a, b, c in LD.LabelledSentence(0, s).transitions]


def judge(ctx, sents, perm_no, in_use=True):
    fns = [LD.extract_ptags_training_data, LD.extract_pdeps_training_data, LD.extract_trans_training_data]
    data = []
    for fn in fns:
        ok, r = extract(fn, sents, perm_no, ctx)
        if not ok:
            return '%s: %s' % (fn.__name__, exc_text(r))
        data.append(list(r))
    ref = reference(sents)
    for name, got, want, width in zip(('tags', 'dependencies', 'transitions'), data, ref, (3, 4, 7)):
        if not want:
            if len(got) and len(got[0]):
                return '%s: samples out of nothing' % name
            continue
        if len(got) != width or len({len(g) for g in got}) != 1:
            return '%s: %d tensors of lengths %r' % (name, len(got), [len(g) for g in got])
        if rows(got) != rows([list(c) for c in zip(*want)]):
            return '%s: training rows differ from the labelled sentences' % name
    if not in_use:
        return None
    # the same sentences in use, with networks that memorised the data
    distinct = {}
    for s in sents:
        k = tuple(shown_as(w[0]) for w in s)
        if distinct.setdefault(k, s) != s:
            return None  # the same words labelled in two ways: no network can memorise both
    distinct = {tuple(w[0] for w in s): s for s in sents}
    log = []
    answers = {(k, i, j): t for k, s in distinct.items() for i, j, t in gold(s)}
    boot.set_oracle(nets.Net(lambda t: [nets.TAG[w[1]] for w in distinct[seen(t, distinct)]],
                             lambda t, tags: [nets.DEP[w[2]] for w in distinct[seen(t, distinct)]],
                             lambda t, a, b, i, j: answers[seen(t, distinct), i, j], log=log))
    ok, r = ctx.call(P, [list(k) for k in distinct])
    if not ok:
        return 'parsing with memorised answers: ' + exc_text(r)
    for k, tags, tree in zip(distinct, *r):
        s = distinct[k]
        if [t.name for t in tags] != [w[1] for w in s]:
            return 'tags of %r are not reproduced' % (k,)
        links = {i: (w[2], w[3]) for i, w in enumerate(s) if w[2] not in ('ROOT', 'NODEP')}
        if not usable(s):
            continue
        if (parsefix.links_of(tree) if tree is not None else {}) != links:
            return 'the tree of %r is not reproduced' % (k,)
    for n, got in ((2, data[0]), (3, data[1]), (6, data[2])):
        shown = set()
        for arrs in log:
            if len(arrs) == n:
                shown.update(rows(arrs))
        trained = set(rows(got[:n])) if got and len(got[0]) else set()
        if shown != trained:
            return 'the network with %d inputs is trained on rows it is never shown in use (or the reverse)' % n
    return None


def usable(s):
    """The tree, words without dependency left out, is projective"""
    keep = [i for i, w in enumerate(s) if w[2] != 'NODEP']
    pos = {i: k for k, i in enumerate(keep)}
    heads = [pos.get(s[i][3], -1) if s[i][2] != 'ROOT' else -1 for i in keep]
    return well(heads) and projective(heads)


def shown_as(t):
    known = nets.char_codes()
    return ''.join(c if c in known else '\ufffd' for c in t)[-20:]


def seen(toks, distinct):
    for k in distinct:
        if [shown_as(t) for t in k] == list(toks):
            return k
    raise nets.NetInputError('shown unknown sentence %r' % (toks,))


class _Hist:
    def __init__(self, metric):
        self.history = {metric: [0.25, 0.75, 0.5]}


class Fit:
    """Records what reaches the network when it is fitted"""

    def __init__(self):
        self.calls = []

    def fit(self, inputs, y, **k):
        self.calls.append(([np.asarray(i) for i in inputs], np.asarray(y), k))
        return _Hist('val_accuracy' if k.get('validation_split') else 'accuracy')


def fit_case(ctx, sents, split):
    from scrappybara.syntax.models import PDepsModel, PTagsModel, TransModel
    for cls, fn, n in ((PTagsModel, LD.extract_ptags_training_data, 2), (PDepsModel, LD.extract_pdeps_training_data, 3),
                       (TransModel, LD.extract_trans_training_data, 6)):
        ok, r = extract(fn, sents, 1, ctx)
        if not ok:
            return exc_text(r)
        f = Fit()
        boot.set_oracle(f)
        ok, acc = ctx.call(lambda: cls(len(CS)).learn(16, 2, 3, r[n], split, *r[:n]))
        if not ok:
            return exc_text(acc)
        if abs(acc - 75) > 1e-9:
            return 'best accuracy %r' % acc
        if len(f.calls) != 1:
            return '%d fits' % len(f.calls)
        inputs, y, _ = f.calls[0]
        want = [np.asarray(x) for x in r]
        if len(inputs) != n or rows(inputs + [y]) != rows(want):
            return '%s is fitted on other tensors than the training data' % cls.__name__
    return None


def run(chunk, ctx):
    if chunk[0] == 'sets':
        _, n, k = chunk
        for num, sents in enumerate(itertools.product(pool(), repeat=n)):
            if num % (n * n) != k:
                continue
            for p in range(6 if n == 3 else 2 if n == 2 else 1):
                msg = judge(ctx, sents, p, p == 0)
                if msg:
                    ctx.fail({'sentences': sents, 'shuffle': p}, msg)
                else:
                    ctx.done((repr(sents), p), True, {'sentences': [' '.join(w[0] for w in s[:5]) for s in sents]})
    elif chunk[0] == 'large':
        sents = large(chunk[1])
        for p in range(5):
            msg = judge(ctx, sents, p, False)
            if msg:
                ctx.fail({'sentences': sents, 'shuffle': p}, msg)
            else:
                ctx.done(('large', chunk[1], p), True)
    elif chunk[0] == 'trees':
        n = chunk[1]
        for num, h in enumerate(gen_projective(n)):
            s = sample(h, labels(n, h.index(-1), num), [nets.TAGS[1 + (num + i) % 16] for i in range(n)])
            for p in range(2):
                msg = judge(ctx, [s], p, p == 0)
                if msg:
                    ctx.fail({'sentences': [s], 'shuffle': p}, msg)
                else:
                    ctx.done((repr(s), p), n > 2)
    else:
        for sents in itertools.combinations(pool(), 2):
            for split in (0, 0.2):
                msg = fit_case(ctx, sents, split)
                if msg:
                    ctx.fail({'sentences': sents, 'split': split, 'fit': True}, msg)
                else:
                    ctx.done(('fit', repr(sents), split))


def replay(c):
    from ..core import Ctx
    sents = [[tuple(t) for t in s] for s in c['sentences']]
    return fit_case(Ctx(), sents, c['split']) if c.get('fit') else judge(Ctx(), sents, c['shuffle'])
