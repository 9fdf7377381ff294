"""Names, noun compounds and particles: every length, nesting and placement, with noun chunking on and off."""
import itertools

from .. import boot, nets, parsefix, semcheck, semfix
from ..core import exc_text
from ..semcheck import S

PROP = 'C20'
TITLE = 'Names, compounds and particles'
RULE = 'extracted predicates equal those of the reference semantics with chunking on (labelled trees) and, through the whole pipeline, with ' \
       'chunking on and off; the joined words are also written down directly; non-trivial: at least one predicate'
ASSUMES = ['through the pipeline, the networks answer with the gold labels and transitions (projective trees)']

PIPE = None
GIVEN = {}


def setup():
    global PIPE
    semfix.setup()
    parsefix.setup()
    from scrappybara.pipeline.pipeline import Pipeline
    PIPE = Pipeline(sentencizer=lambda text: [list(s) for s in GIVEN[text]], nb_cores=1, batch_size=64)


def BOUNDS(tier):
    return {'disguises': 'every case also in one of %d garbs (far from the start, spread out, capitals, equal words, below another clause, backwards, negated, coordinated), rotating' % semcheck.NB_DISGUISES,
            'names': '1..8 and 12 words in one chain x 6 positions in the clause x neighbours with 0..2 adjectives/compounds',
            'compounds': 'every projective and non-projective tree of %d nouns with complements before or after, each with or without a marker, in 5 positions' % (4 if tier == 'quick' else 5),
            'parts of speech': 'every pair of parts of speech in a two-noun compound, fixing of adjective/noun tags included',
            'particles': '0..3 particles, each before or after the verb or adjective, in upper and lower case, with "to"',
            'chunking': 'on and off, through the pipeline'}


PAIRS_QUICK = 4


def chunks(tier):
    out = [('names', n) for n in range(1, 9)]
    out += [('names', 12)]
    out += [('cmp', n, k, m) for n, m in ((2, 1), (3, 2), (4, 16)) for k in range(m)]
    if tier == 'thorough':
        out += [('cmp', 5, k, 64) for k in range(64)]
    out += [('tags', k) for k in range(4)] + [('part', 'VERB'), ('part', 'ADJ'), ('mix', 0), ('direct', 0)]
    return out


def projective(sample):
    n = len(sample)
    heads = [t[3] for t in sample]
    for c, h in enumerate(heads):
        if h < 0:
            continue
        for k in range(min(c, h) + 1, max(c, h)):
            if sample[k][2] == 'NODEP':
                continue
            j = k
            while j >= 0 and j != h:
                j = heads[j]
            if j != h:
                return False
    return True


def piped(sample, chunk, ctx):
    from scrappybara.syntax.labelled_data import LabelledSentence
    toks = tuple(t[0] for t in sample)
    gold = {(a, b): int(t) for a, b, t in LabelledSentence(0, sample).transitions}
    boot.set_oracle(nets.Net(lambda t: [nets.TAG[x[1]] for x in sample], lambda t, tags: [nets.DEP[x[2]] for x in sample],
                             lambda t, a, b, i, j: gold[i, j]))
    GIVEN['x'] = [toks]
    return ctx.call(lambda: semfix.view(PIPE(['x'], chunk)[0].stuples))


def case(ctx, sample, pipe=True):
    one(ctx, sample, pipe)
    for d in semcheck.disguises(sample):
        one(ctx, d, pipe and len(d) <= 50)


def one(ctx, sample, pipe=True):
    msg, got = semcheck.compare(sample, ctx)
    off = None
    if msg is None and pipe and len(sample) > 1 and projective(sample) and not collide(sample):
        for chunk in (True, False):
            ok, r = piped(sample, chunk, ctx)
            if not ok:
                msg = 'pipeline: ' + exc_text(r)
            elif sorted(r) != sorted(semfix.REF(sample, chunk)):
                msg = 'pipeline, chunking %s: %r instead of %r' % (chunk, sorted(r), sorted(semfix.REF(sample, chunk)))
            if msg:
                break
            off = r
        ctx.extra['through_pipeline'] += 1
    if msg:
        ctx.fail({'sample': sample}, msg)
    else:
        ctx.done((tuple(sorted(got)), tuple(sorted(off or ()))), bool(got), {'sample': [' '.join(map(str, t)) for t in sample], 'predicates': got[:3]})


def collide(sample):
    known = nets.char_codes()
    return any(len(t[0]) > 20 or any(c not in known for c in t[0]) for t in sample)


SLOTS = ['ROOT', 'SUBJ', 'OBJ', 'IOBJ', 'PROP', 'CPL']


def place(slot, words, head):
    """words: items of the noun phrase whose head is named `head`, with the head's dep/parent filled in here"""
    def fix(dep, parent):
        return [(w[0], w[1], w[2], dep, parent) if w[0] == head else w for w in words]
    if slot == 'ROOT':
        return S(*fix('ROOT', None), ('z', 'red', 'ADJ', 'CPL', head))
    if slot == 'SUBJ':
        return S(*fix('SUBJ', 'v'), ('v', 'like', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v'))
    if slot == 'CPL':
        return S(('s', 'hat', 'NOUN', 'SUBJ', 'v'), ('m', 'of', 'PREP', 'MARK', head), *fix('CPL', 's'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'big', 'ADJ', 'PROP', 'v'))
    return S(('s', 'You', 'PRON', 'SUBJ', 'v'), ('v', 'make' if slot != 'PROP' else 'is', 'VERB', 'ROOT', None), *fix(slot, 'v'))


NAME = ['John', 'New', 'York', 'Smith', 'London', 'Bob', 'John', 'De', 'Paris', 'new', 'The', 'Xy']


def names(n):
    for slot in SLOTS:
        for tag in ('PROPN', 'NOUN', 'NUM', 'SYM'):
            base = [('f0', NAME[0], tag, None, None)] + [('f%d' % i, NAME[i], tag, 'FLAT', 'f%d' % (i - 1)) for i in range(1, n)]
            for adj, cmp_, post, neg in itertools.product((0, 1), (0, 1), (0, 1), (0, 1)):
                w = (adj and [('a', 'old', 'ADJ', 'CPL', 'f0')] or []) + (cmp_ and [('c', 'garden', 'NOUN', 'CPL', 'f0')] or []) + base + \
                    (post and [('q', 'tall', 'ADJ', 'CPL', 'f0')] or []) + (neg and [('n', 'not', 'ADV', 'NEG', 'f0')] or [])
                yield place(slot, w, 'f0')
            # two names joined
            other = [('g0', 'Bob', tag, 'AND', 'f0')] + [('g%d' % i, NAME[i], tag, 'FLAT', 'g%d' % (i - 1)) for i in range(1, n)]
            yield place(slot, base + other, 'f0')
            # star-shaped name (all words attached to the first)
            if n > 2:
                yield place(slot, [base[0]] + [('f%d' % i, NAME[i], tag, 'FLAT', 'f0') for i in range(1, n)], 'f0')


CN = ['stock', 'market', 'price', 'table', 'chair', 'cat', 'box', 'stock', 'house', 'key', 'hat', 'cup']


def compounds(n, k, m):
    num = 0
    for heads in semcheck.rooted(n):
        root = heads.index(-1)
        for marks in itertools.product((0, 1), repeat=n):
            num += 1
            if num % m != k:
                continue
            if marks[root]:
                continue
            w = []
            for i in range(n):
                if marks[i]:
                    w.append(('m%d' % i, 'of', 'PREP', ('MARK', 'CMARK', 'IMARK')[i % 3], 'n%d' % i))
                w.append(('n%d' % i, CN[i], 'NOUN', 'CPL', None if heads[i] < 0 else 'n%d' % heads[i]))
            for slot in SLOTS:
                yield place(slot, w, 'n%d' % root)


def tags(k):
    kinds = [('market', 'NOUN'), ('John', 'PROPN'), ('I', 'PRON'), ('34', 'NUM'), ('#x', 'SYM'), ('red', 'ADJ'), ('run', 'VERB'), ('up', 'ADV'), ('red', 'NOUN'), ('garden', 'ADJ'),
             ('cats', 'NOUN'), ('gardens', 'ADJ')]
    for a, b in itertools.product(kinds, repeat=2):
        for slot in SLOTS[k::4]:
            yield place(slot, [('c', a[0], a[1], 'CPL', 'h'), ('h', b[0], b[1], None, None)], 'h')
            yield place(slot, [('h', b[0], b[1], None, None), ('c', a[0], a[1], 'CPL', 'h')], 'h')
            yield place(slot, [('d', 'house', 'NOUN', 'CPL', 'c'), ('c', a[0], a[1], 'CPL', 'h'), ('h', b[0], b[1], None, None)], 'h')
            yield place(slot, [('d', 'house', 'NOUN', 'CPL', 'h'), ('c', a[0], a[1], 'CPL', 'h'), ('h', b[0], b[1], None, None)], 'h')
            yield place(slot, [('c', a[0], a[1], 'CPL', 'h'), ('h', b[0], b[1], None, None), ('e', 'box', 'NOUN', 'AND', 'h')], 'h')
            yield place(slot, [('c', a[0], a[1], 'CPL', 'h'), ('e', 'box', 'NOUN', 'AND', 'c'), ('h', b[0], b[1], None, None)], 'h')


def particles(tag):
    pool = ['up', 'OUT', 'to', 'off']
    for n in range(0, 4):
        for ps in itertools.product(pool, repeat=n):
            for before in range(n + 1):
                pre = [('p%d' % i, p, 'FRAG', 'PART', 'v') for i, p in enumerate(ps[:before])]
                post = [('q%d' % i, p, 'FRAG', 'PART', 'v') for i, p in enumerate(ps[before:])]
                if tag == 'VERB':
                    yield S(('s', 'cat', 'NOUN', 'SUBJ', 'v'), *pre, ('v', 'looked', 'VERB', 'ROOT', None), *post, ('o', 'tea', 'NOUN', 'OBJ', 'v'))
                    yield S(('s', 'cat', 'NOUN', 'SUBJ', 'v'), *pre, ('v', 'look', 'VERB', 'ROOT', None), *post)
                    if post:
                        # the object between verb and particle
                        yield S(('s', 'cat', 'NOUN', 'SUBJ', 'v'), *pre, ('v', 'look', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v'), *post)
                    yield S(('s', 'I', 'PRON', 'SUBJ', 'w'), ('w', 'want', 'VERB', 'ROOT', None), *pre, ('v', 'call', 'VERB', 'OBJ', 'w'), *post, ('o', 'him', 'PRON', 'OBJ', 'v'))
                    yield S(('v', 'paint', 'VERB', 'ROOT', None), *post, ('o', 'door', 'NOUN', 'OBJ', 'v'), ('i', 'red', 'ADJ', 'IPROP', 'v'))
                else:
                    for w in ('painted', 'big', 'called'):
                        yield S(('s', 'cat', 'NOUN', 'SUBJ', 'x'), ('x', 'is', 'VERB', 'ROOT', None), *pre, ('v', w, 'ADJ', 'PROP', 'x'), *post,
                                ('m', 'by', 'PREP', 'MARK', 'g'), ('g', 'John', 'PROPN', 'CPL', 'v'))
                        yield S(*pre, ('v', w, 'ADJ', 'CPL', 'n'), *post, ('n', 'dog', 'NOUN', 'ROOT', None))
                        yield S(('n', 'dog', 'NOUN', 'ROOT', None), *pre, ('v', w, 'ADJ', 'CPL', 'n'), *post, ('k', 'red', 'ADJ', 'PROP', 'v'))


def mix():
    # names inside compounds, compounds of names, coordinated compounds
    for a, b, c in itertools.product(('NOUN', 'PROPN'), repeat=3):
        for slot in SLOTS:
            yield place(slot, [('a', 'New', a, 'CPL', 'h'), ('b', 'York', b, 'FLAT', 'a'), ('h', 'market', c, None, None)], 'h')
            yield place(slot, [('a', 'stock', a, 'CPL', 'h'), ('h', 'John', b, None, None), ('b', 'Smith', c, 'FLAT', 'h')], 'h')
            yield place(slot, [('a', 'stock', a, 'CPL', 'h'), ('h', 'market', b, None, None), ('e', 'garden', a, 'CPL', 'f'), ('f', 'price', c, 'AND', 'h')], 'h')


def direct(ctx):
    """Without the reference semantics"""
    for n in range(1, 13):
        chain = [(NAME[i], 'PROPN', 'SUBJ' if i == 0 else 'FLAT', n if i == 0 else i - 1) for i in range(n)]
        want = [('PI', (' '.join(NAME[:n]).lower(), 'run'), True)]
        check(ctx, chain + [('run', 'VERB', 'ROOT', -1)], want)
        comp = [(CN[i], 'NOUN', 'CPL', n - 1) for i in range(n - 1)] + [(CN[n - 1], 'NOUN', 'SUBJ', n)]
        check(ctx, comp + [('run', 'VERB', 'ROOT', -1)], [('NI', (' '.join(CN[:n]), 'run'), True)])
        left = [(CN[i], 'NOUN', 'CPL', i + 1) for i in range(n - 1)] + [(CN[n - 1], 'NOUN', 'SUBJ', n)]
        check(ctx, left + [('run', 'VERB', 'ROOT', -1)], [('NI', (' '.join(CN[:n]), 'run'), True)])
        parts = (['Up', 'out', 'OFF', 'up'] * 3)[:n - 1]
        check(ctx, [('cat', 'NOUN', 'SUBJ', 1), ('run', 'VERB', 'ROOT', -1)] + [(p, 'FRAG', 'PART', 1) for p in parts],
              [('NI', ('cat', ' '.join(['run'] + [p.lower() for p in parts])), True)])
        for s in (comp, left):
            sample = s + [('run', 'VERB', 'ROOT', -1)]
            ok, r = piped(sample, False, ctx)
            if not ok or sorted(r) != [('NI', (CN[n - 1], 'run'), True)]:
                ctx.fail({'sample': sample}, 'chunking off: %r' % (r,))
            else:
                ctx.done(('off', n))


def check(ctx, sample, want):
    msg, got = semcheck.compare(sample, ctx, want)
    if msg:
        ctx.fail({'sample': sample, 'want': want}, msg)
    else:
        ctx.done(tuple(got))


def run(chunk, ctx):
    k = chunk[0]
    if k == 'direct':
        return direct(ctx)
    it = {'names': lambda: names(chunk[1]), 'cmp': lambda: compounds(*chunk[1:]), 'tags': lambda: tags(chunk[1]), 'part': lambda: particles(chunk[1]), 'mix': mix}[k]()
    for s in it:
        case(ctx, s)


def replay(c):
    from ..core import Ctx
    ctx = Ctx()
    sample = [tuple(t) for t in c['sample']]
    one(ctx, sample)
    return ctx.fails[0][1] if ctx.fails else None
