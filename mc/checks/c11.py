"""Long sentences: every length around the limit and every placement of one or two cut points."""
import itertools

from .. import boot, nets, parsefix, semfix
from ..core import exc_text

PROP = 'C11'
TITLE = 'Only uncuttable sentences are left out'
RULE = 'the sentences shown to the networks and the sentence objects returned are exactly the reference pieces, in order; ' \
       'non-trivial: a sentence longer than 50 tokens'
ASSUMES = ['sentences are given through a custom sentence splitter, so that token lists are exact; a family uses the default one']

CUT = list(':";()[]{}-')
NOCUT = [',', '--', '...', "'", '.', '?', '!', '/', '<', '::', '((', '_', '|', '=', '*', 'a-b', '(x']
MAXLEN = 50
GIVEN = {}
PIPE = DEFAULT = None


def setup():
    global PIPE, DEFAULT
    semfix.setup()
    parsefix.setup()
    from scrappybara.pipeline.pipeline import Pipeline
    PIPE = {(c, b): Pipeline(sentencizer=lambda text: [list(s) for s in GIVEN[text]], nb_cores=c, batch_size=b) for c in (1, 2) for b in (2, 128)}
    DEFAULT = Pipeline(nb_cores=2)


def BOUNDS(tier):
    return {'lengths': 'every length 0..60 and 98..106, 150..156 without a cut point; with one cut point at every position for lengths 49..56, 99..103',
            'cut tokens': 'all 11 at every position for length 51..52, 18 look-alikes; all pairs of positions for lengths %s; runs of 2 and 3' % ('51, 101' if tier == 'quick' else '51, 52, 60, 101, 102'),
            'very long': '300 to 3000 tokens with a cut point every 7, 49, 50, 51, 52, 60, 101 tokens',
            'texts': 'all sequences of up to 3 sentences from 6 (short, limit, one over, cuttable, partly cuttable, only cut tokens)',
            'default splitter': 'texts of 45..60 words with brackets, quotes, hyphens and semicolons'}


def pieces(tokens):
    if len(tokens) <= MAXLEN:
        return [list(tokens)]
    out, cur = [], []
    for t in list(tokens) + [':']:
        if t in CUT:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    return [p for p in out if len(p) <= MAXLEN]


def words(n, off=0):
    return ['w%d' % (i + off) for i in range(n)]


class Shown:
    """Every word is a noun, the first one the subject of the second, a verb; so that each sentence is told apart by its predicate"""

    def __init__(self):
        self.log = []
        self.net = nets.Net(self.tags, self.deps, lambda t, a, b, i, j: nets.LEFT)

    def predict(self, inputs):
        if len(inputs) == 2:
            for m in inputs[0]:
                self.log.append(tuple(self.net.tokens(m)))
        return self.net.predict(inputs)

    def tags(self, toks):
        return [nets.TAG['NOUN' if i != 1 else 'VERB'] for i in range(len(toks))]

    def deps(self, toks, tags):
        return [nets.DEP['SUBJ' if i == 0 else 'ROOT' if i == 1 else 'NODEP'] for i in range(len(toks))]


def expected_view(p):
    if len(p) < 2:
        return []
    s = [(t, 'NOUN' if i != 1 else 'VERB', 'SUBJ' if i == 0 else 'ROOT' if i == 1 else 'NODEP', 1 if i == 0 else -1) for i, t in enumerate(p)]
    return semfix.REF(s, True)


def judge(texts, ctx, cfg=(1, 128)):
    """texts: list of lists of token lists"""
    GIVEN.clear()
    for k, sents in enumerate(texts):
        GIVEN['t%d' % k] = sents
    net = Shown()
    boot.set_oracle(net)
    ok, docs = ctx.call(PIPE[cfg], ['t%d' % k for k in range(len(texts))])
    if not ok:
        return exc_text(docs)
    want = [[p for s in sents for p in pieces(s)] for sents in texts]
    flat = [tuple(p) for w in want for p in w]
    if net.log != flat:
        if sorted(net.log) != sorted(flat):
            return 'analysed %r instead of %r' % (brief(net.log), brief(flat))
    if len(docs) != len(texts):
        return '%d documents' % len(docs)
    for w, doc in zip(want, docs):
        sents = list(doc)
        if len(sents) != len(w):
            return '%d sentences instead of %d' % (len(sents), len(w))
        for p, s in zip(w, sents):
            if sorted(semfix.view(s)) != sorted(expected_view(p)):
                return 'sentence %r has predicates %r' % (brief([p]), semfix.view(s))
    return None


def brief(sents):
    return [(len(s), ' '.join(s)[:60]) for s in sents]


def case(ctx, texts, cfg=(1, 128)):
    msg = judge(texts, ctx, cfg)
    if msg:
        ctx.fail({'texts': texts, 'cfg': cfg}, msg)
    else:
        ctx.done(repr([[brief([s]) for s in t] for t in texts]), any(len(s) > MAXLEN for t in texts for s in t),
                 {'lengths': [[len(s) for s in t] for t in texts]})


def chunks(tier):
    out = [('plain', 0, 61), ('plain', 98, 107), ('plain', 150, 157)]
    out += [('one', n) for n in (49, 50, 51, 52, 53, 54, 55, 56, 99, 100, 101, 102, 103)]
    out += [('tokens', n) for n in (49, 50, 51, 52)]
    out += [('pair', n, k, 8) for n in ((51, 101) if tier == 'quick' else (51, 52, 60, 101, 102)) for k in range(8)]
    out += [('runs', n) for n in (50, 51, 52, 101, 102, 103, 104)]
    out += [('texts', k) for k in range(6)]
    out += [('big', n) for n in (300, 500, 1000, 3000)]
    out += [('default', 0)]
    return out


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'plain':
        for n in range(chunk[1], chunk[2]):
            case(ctx, [[words(n)]])
            case(ctx, [[words(n), words(3, 200)]], (2, 2))
    elif kind == 'one':
        n = chunk[1]
        for pos in range(n):
            s = words(n)
            s[pos] = CUT[pos % len(CUT)]
            case(ctx, [[s]])
    elif kind == 'tokens':
        n = chunk[1]
        for t in CUT + NOCUT:
            for pos in range(n):
                s = words(n)
                s[pos] = t
                case(ctx, [[s]])
    elif kind == 'pair':
        _, n, k, m = chunk
        for num, (a, b) in enumerate(itertools.combinations(range(n), 2)):
            if num % m == k:
                s = words(n)
                s[a], s[b] = CUT[a % len(CUT)], CUT[b % len(CUT)]
                case(ctx, [[s]])
    elif kind == 'runs':
        n = chunk[1]
        for length in (2, 3, 4):
            for pos in range(n - length + 1):
                s = words(n)
                s[pos:pos + length] = [CUT[(pos + i) % len(CUT)] for i in range(length)]
                case(ctx, [[s]])
        case(ctx, [[[CUT[i % len(CUT)] for i in range(n)]]])
        case(ctx, [[['w%d' % i if i % 2 else CUT[i % len(CUT)] for i in range(n)]]])
    elif kind == 'big':
        n = chunk[1]
        for step in (7, 49, 50, 51, 52, 60, 101):
            s = words(n)
            for k in range(step - 1, n, step):
                s[k] = CUT[k % len(CUT)]
            case(ctx, [[s, words(4, 9000)]], (2, 2))
            s2 = list(s)
            s2[n // 2] = s2[n // 2 + 1] = '-'
            case(ctx, [[words(3, 9100), s2], [s]], (1, 128))
    elif kind == 'texts':
        pool = [words(5, 300), ['w1', ':', '(', 'w2'], words(50, 400), words(51, 500), words(30, 600) + [';'] + words(30, 700),
                words(10, 800) + ['('] + words(55, 900) + [')'] + words(7, 970), [':'] * 55]
        n = 0
        for size in (1, 2, 3):
            for sents in itertools.product(pool, repeat=size):
                n += 1
                if n % 6 == chunk[1]:
                    case(ctx, [list(sents)], (2, 2) if n % 4 else (1, 128))
                    if size > 1:
                        case(ctx, [[s] for s in sents], (2, 2) if n % 4 else (1, 128))
    elif kind == 'default':
        from scrappybara.preprocessing.sentencizer import Sentencizer
        split = Sentencizer()
        for n in range(44, 62):
            for form in ('%s', '%s; %s', '%s (%s)', '%s - %s', '%s "%s"', '%s [%s] %s', '(%s) %s; %s'):
                k = form.count('%s')
                text = form % tuple(' '.join(words(n // k + (i < n % k), 100 * i)) for i in range(k))
                msg = default_case(text, split, ctx)
                if msg:
                    ctx.fail({'default': text}, msg)
                else:
                    ctx.done(text, n > 50)


def default_case(text, split, ctx):
    net = Shown()
    boot.set_oracle(net)
    ok, docs = ctx.call(DEFAULT, [text])
    if not ok:
        return exc_text(docs)
    want = [tuple(p) for s in split(text) for p in pieces(s)]
    if sorted(net.log) != sorted(want):
        return 'analysed %r instead of %r' % (brief(net.log), brief(want))
    if [sorted(semfix.view(s)) for s in docs[0]] != [sorted(expected_view(list(p))) for p in want]:
        return 'wrong predicates'
    return None


def replay(c):
    from ..core import Ctx
    if 'default' in c:
        from scrappybara.preprocessing.sentencizer import Sentencizer
        return default_case(c['default'], Sentencizer(), Ctx())
    return judge(c['texts'], Ctx(), tuple(c['cfg']))
