"""Pipeline: every small list of texts under every batch size, number of cores, device and chunking setting."""
import collections
import itertools

from .. import boot, nets, parsefix, semfix
from ..core import exc_text

PROP = 'C10'
TITLE = 'Documents depend on their own text only'
RULE = 'one document per text in order, one sentence object per sentence, predicates equal the reference semantics of that sentence; ' \
       'non-trivial: at least two texts, or a text with several sentences'
ASSUMES = ['the networks are deterministic functions of what they are shown (they answer with the gold labels of known sentences)',
           'predicates of one sentence are compared as a multiset']

# labelled sentences with pairwise different predicates
S = {
    'a': [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('tea', 'NOUN', 'OBJ', 1), ('.', 'PUNCT', 'NODEP', -1)],
    'b': [('You', 'PRON', 'SUBJ', 1), ('see', 'VERB', 'ROOT', -1), ('dog', 'NOUN', 'OBJ', 1), ('.', 'PUNCT', 'NODEP', -1)],
    'c': [('Stock', 'NOUN', 'CPL', 1), ('market', 'NOUN', 'SUBJ', 2), ('run', 'VERB', 'ROOT', -1), ('.', 'PUNCT', 'NODEP', -1)],
    'd': [('We', 'PRON', 'SUBJ', 3), ('do', 'MAT', 'AUX', 3), ('not', 'ADV', 'NEG', 3), ('like', 'VERB', 'ROOT', -1), ('big', 'ADJ', 'CPL', 5),
          ('car', 'NOUN', 'OBJ', 3), ('.', 'PUNCT', 'NODEP', -1)],
    'n': [('Hello', 'EXPR', 'ROOT', -1), ('!', 'PUNCT', 'NODEP', -1)],
    # told apart by case only, by negation only; the same words with another tree
    'e': [('Bob', 'PROPN', 'SUBJ', 1), ('run', 'VERB', 'ROOT', -1), ('.', 'PUNCT', 'NODEP', -1)],
    'f': [('bob', 'NOUN', 'SUBJ', 1), ('run', 'VERB', 'ROOT', -1), ('.', 'PUNCT', 'NODEP', -1)],
    'g': [('You', 'PRON', 'SUBJ', 2), ('not', 'ADV', 'NEG', 2), ('see', 'VERB', 'ROOT', -1), ('dog', 'NOUN', 'OBJ', 2), ('.', 'PUNCT', 'NODEP', -1)],
    'h': [('Dog', 'NOUN', 'SUBJ', 1), ('see', 'VERB', 'ROOT', -1), ('you', 'PRON', 'OBJ', 1), ('!', 'PUNCT', 'NODEP', -1)],
    # pieces of a sentence of more than 50 words
    'i': [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('car', 'NOUN', 'OBJ', 1)],
    'w': [('Cat', 'NOUN', 'SUBJ', 1), ('walk', 'VERB', 'ROOT', -1)] + [('x%d' % i, 'ADV', 'NODEP', -1) for i in range(47)] + [('.', 'PUNCT', 'NODEP', -1)],
    'p': [('Oh', 'EXPR', 'NODEP', -1), ('?', 'PUNCT', 'NODEP', -1)],
}
TEXTS = {'': [], ' ': [], 'A': ['a'], 'B': ['b'], 'AC': ['a', 'c'], 'CB': ['c', 'b'], 'N': ['n'], 'D': ['d'], 'P': ['p'], 'NAP': ['n', 'a', 'p'],
         'E': ['e'], 'F': ['f'], 'FE': ['f', 'e'], 'BG': ['b', 'g'], 'HG': ['h', 'g'], 'cut': ['i', 'w', 'a'], 'out': ['b'], 'gone': [],
         'ABDCN': list('abdcn'), 'AA': ['a', 'a']}
SPELT = {'cut': 'I eat car ; Cat walk %s. I eat tea.' % ' '.join('x%d' % i for i in range(47)), 'out': 'Z%s. You see dog.' % (' yy' * 55), 'gone': 'Z%s.' % (' yy' * 50)}
BATCH = (1, 2, 3, 5, 128)
CORES = (1, 2, 3, 8)
PIPES = {}
EMPTY = {}
GOLD = {}
WANT = {}


def text_of(key):
    if key in ('', ' '):
        return key
    if key in SPELT:
        return SPELT[key]
    return ' '.join(' '.join(t[0] for t in S[s][:-1]) + S[s][-1][0] for s in TEXTS[key])


class Gold:
    """Networks that know the labelled sentences"""

    def __init__(self, log=None):
        self.net = nets.Net(self.tags, self.deps, self.trans, log=log)
        self.predict = self.net.predict

    def tags(self, toks):
        return [nets.TAG[t[1]] for t in GOLD[tuple(toks)][0]]

    def deps(self, toks, tags):
        return [nets.DEP[t[2]] for t in GOLD[tuple(toks)][0]]

    def trans(self, toks, tags, deps, i, j):
        return GOLD[tuple(toks)][1][i, j]


def setup():
    semfix.setup()
    parsefix.setup()
    from scrappybara.pipeline.pipeline import Pipeline
    from scrappybara.preprocessing.sentencizer import Sentencizer
    from scrappybara.syntax.labelled_data import LabelledSentence
    for s in list(S.values()) + [[]]:
        tr = {(a, b): int(t) for a, b, t in LabelledSentence(0, s).transitions} if s else {}
        GOLD[tuple(t[0] for t in s)] = (s, tr)
    GOLD[('',)] = ([('', 'PUNCT', 'NODEP', -1)], {})  # a text without any word is one empty token
    for key, s in S.items():
        for chunk in (True, False):
            WANT[key, chunk] = collections.Counter(semfix.REF(s, chunk))
    for b, c, g in itertools.product(BATCH, CORES, (True, False)):
        PIPES[b, c, g] = Pipeline(nb_cores=c, batch_size=b, use_gpu=g)
    for c in (4, 5, 6, 7, 9, 16, 33):
        PIPES[7, c, True] = Pipeline(nb_cores=c, batch_size=7)
    for key in ('', ' '):
        EMPTY[key] = len(Sentencizer()(key))


def BOUNDS(tier):
    return {'texts': 'all lists of 0..%d texts from %d (no sentence, no predicate, one to five sentences, repeated, too long or cut ones, sentences told apart by case or negation)' % (3 if tier == 'quick' else 4, len(TEXTS)),
            'configurations': 'batch sizes %s x cores %s x device x noun chunking' % (BATCH, CORES),
            'cores': '4 to 33 cores x 0 to 40 texts',
            'scale': '126..131, 255..258, 300, 1030 sentences in one call, in one text or spread'}


def chunks(tier):
    out = [('small', n, b) for n in range(0, 3) for b in BATCH]
    out += [('three', b, k) for b in BATCH for k in range(4)]
    if tier == 'thorough':
        out += [('four', b, k) for b in BATCH for k in range(8)]
    out += [('cores', c) for c in (4, 5, 6, 7, 9, 16, 33)]
    out += [('scale', n) for n in (50, 126, 127, 128, 129, 130, 131, 255, 256, 257, 258, 300)]
    out += [('scale', n) for n in ((1030,) if tier == 'quick' else (1030, 2500, 5003))]
    return out


def call(keys, cfg, chunk, ctx):
    boot.set_oracle(Gold())
    return ctx.call(PIPES[cfg], [text_of(k) for k in keys], chunk) if chunk is not None else ctx.call(PIPES[cfg], [text_of(k) for k in keys])


def judge(keys, cfg, chunk, ctx):
    ok, docs = call(keys, cfg, chunk, ctx)
    if not ok:
        return exc_text(docs)
    if len(docs) != len(keys):
        return '%d documents for %d texts' % (len(docs), len(keys))
    for n, (k, doc) in enumerate(zip(keys, docs)):
        sents = list(doc)
        want = TEXTS[k]
        if k in EMPTY:
            if len(sents) != EMPTY[k] or any(list(s) for s in sents):
                return 'document %d of text %r has %d sentences' % (n, k, len(sents))
        elif len(sents) != len(want):
            return 'document %d has %d sentences instead of %d' % (n, len(sents), len(want))
        for m, s in enumerate(want):
            got = semfix.view(sents[m])
            if collections.Counter(got) != WANT[s, chunk is not False]:
                return 'document %d, sentence %d has %r instead of %r' % (n, m, got, sorted(WANT[s, chunk is not False]))
        flat = semfix.view(doc.stuples)
        if flat != [v for s in sents for v in semfix.view(s)]:
            return 'document %d: stuples are not those of its sentences' % n
    return None


def case(ctx, keys, cfg, chunk):
    msg = judge(keys, cfg, chunk, ctx)
    if msg:
        ctx.fail({'texts': list(keys), 'batch': cfg[0], 'cores': cfg[1], 'gpu': cfg[2], 'chunk': chunk}, msg)
    else:
        ctx.done((tuple(keys), cfg, chunk), len(keys) > 1 or any(len(TEXTS[k]) > 1 for k in keys), {'texts': [text_of(k) for k in keys][:4], 'batch': cfg[0]})


SWEEP = ['A', 'CB', 'N', '', 'F', 'E', 'BG', 'cut', 'out', 'D', 'HG', 'AA', 'gone']
FEW = ['', 'A', 'CB', 'N', 'D', 'NAP']


def run(chunk, ctx):
    if chunk[0] == 'small':
        _, n, b = chunk
        for keys in itertools.product(TEXTS, repeat=n):
            for c, g in itertools.product(CORES, (True, False)):
                for ch in ((True, False, None) if n < 2 else (True, False) if g else (True,)):
                    case(ctx, keys, (b, c, g), ch)
    elif chunk[0] == 'three':
        _, b, k = chunk
        for num, keys in enumerate(itertools.product(FEW, repeat=3)):
            if num % 4 == k:
                for c in (1, 2, 3):
                    case(ctx, keys, (b, c, True), True)
                case(ctx, keys, (b, 2, False), False)
    elif chunk[0] == 'cores':
        for n in range(0, 41):
            case(ctx, [SWEEP[(i * 3 + n) % len(SWEEP)] for i in range(n)], (7, chunk[1], True), True)
    elif chunk[0] == 'four':
        _, b, k = chunk
        for num, keys in enumerate(itertools.product(FEW, repeat=4)):
            if num % 8 == k:
                for c in CORES:
                    case(ctx, keys, (b, c, True), True)
                    case(ctx, keys, (b, c, False), False)
    else:
        n = chunk[1]
        one = 'L%d' % n
        TEXTS[one] = [list('abcdn')[i % 5] for i in range(n)]
        for b, c in ((128, 1), (128, 8), (3, 2), (5, 3)) if n < 900 else ((128, 2),):
            case(ctx, [one], (b, c, True), True)
            case(ctx, [['A', 'B', 'D', 'AC', 'N'][i % 5] if i else '' for i in range(n)], (b, c, False), True)
            case(ctx, ['A', one, '', 'D'], (b, c, True), False)


def replay(c):
    from ..core import Ctx
    for k in c['texts']:
        if k.startswith('L'):
            TEXTS[k] = [list('abcdn')[i % 5] for i in range(int(k[1:]))]
    return judge(c['texts'], (c['batch'], c['cores'], c['gpu']), c['chunk'], Ctx())
