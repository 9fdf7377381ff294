"""Reused components: every sequence of calls up to a length on one instance, against what fresh instances answer."""
import copy
import itertools

from .. import boot, nets, parsefix, semfix
from ..core import alone, exc_text

PROP = 'C09'
TITLE = 'Components keep nothing of earlier calls'
RULE = 'each answer of a sequence equals the answer of a fresh instance to that call alone (computed in a process of its own); calls that ' \
       'fail are only required not to disturb the others; non-trivial: two different calls in the sequence'
ASSUMES = ['networks are deterministic functions of what they are shown',
           'lists and documents that a call returned are emptied by the caller before the next call']
TECHNIQUE = 'model checking: all operation sequences up to a depth on the real components, compared with fresh instances'

COMP = {}  # name -> (make, [(label, call)])
BASE = {}
SENTS = {
    'tea': [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('hot', 'ADJ', 'CPL', 3), ('tea', 'NOUN', 'OBJ', 1)],
    'stock': [('Stock', 'NOUN', 'CPL', 1), ('market', 'NOUN', 'SUBJ', 3), ('not', 'ADV', 'NEG', 3), ('carried', 'VERB', 'ROOT', -1),
              ('John', 'PROPN', 'OBJ', 3), ('Smith', 'PROPN', 'FLAT', 4), ('up', 'PREP', 'PART', 3)],
    'yes': [('market', 'NOUN', 'SUBJ', 1), ('carried', 'VERB', 'ROOT', -1), ('John', 'PROPN', 'OBJ', 1)],
    'no': [('market', 'NOUN', 'SUBJ', 2), ('not', 'ADV', 'NEG', 2), ('carried', 'VERB', 'ROOT', -1), ('John', 'PROPN', 'OBJ', 2)],
    'painted': [('John', 'PROPN', 'SUBJ', 1), ('painted', 'VERB', 'ROOT', -1), ('painted', 'ADJ', 'CPL', 3), ('chair', 'NOUN', 'OBJ', 1)],
    'passive': [('cat', 'NOUN', 'SUBJ', 2), ('was', 'MAT', 'AUX', 2), ('painted', 'VERB', 'ROOT', -1), ('by', 'PREP', 'MARK', 4), ('John', 'PROPN', 'CPL', 2)],
    'and': [('cat', 'NOUN', 'SUBJ', 3), ('and', 'CONJ', 'MARK', 2), ('dog', 'NOUN', 'AND', 0), ('run', 'VERB', 'ROOT', -1)],
    'hello': [('hello', 'EXPR', 'ROOT', -1)],
    'naked': [('apple', 'NOUN', 'ROOT', -1), ('I', 'PRON', 'SUBJ', 2), ('ate', 'VERB', 'CPL', 0)],
    'broken': [('a', 'NOUN', 'SUBJ', 9), ('b', 'VERB', 'ROOT', -1)],
    'untagged': [('a', 'NO_TAG', 'SUBJ', 1), ('b', 'VERB', 'ROOT', -1)],
}


def outcome(call, comp):
    """('ok', what the caller sees) or ('failed',); whatever list was returned is then emptied"""
    try:
        got = call(comp)
    except Exception:  # noqa - an observation
        return ('failed',)
    seen = ('ok', view(got))
    spoil(got)
    return seen


def view(x):
    if isinstance(x, (list, tuple)) and not hasattr(x, 'code'):
        if x and all(hasattr(y, 'code') for y in x):
            return tuple(sorted(semfix.view(x)))
        return tuple(view(y) for y in x)
    if hasattr(x, 'sentences'):
        return tuple(view(s.stuples) for s in x.sentences)
    if hasattr(x, 'code'):
        return tuple(semfix.view([x]))
    if hasattr(x, 'name') and hasattr(x, 'value'):
        return x.name
    return x


def spoil(x):
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif hasattr(x, 'sentences'):
        for s in x.sentences:
            if isinstance(s.stuples, list):
                s.stuples.clear()
        if isinstance(x.sentences, list):
            x.sentences.clear()


def setup():
    if COMP:
        return
    semfix.setup()
    parsefix.setup()
    from scrappybara.langmodel.language_model import LanguageModel
    from scrappybara.normalization.inflector import Inflector
    from scrappybara.normalization.lemmatizer import Lemmatizer
    from scrappybara.normalization.standardizer import Standardizer
    from scrappybara.pipeline.logic_pipeline import LogicPipeline
    from scrappybara.pipeline.pipeline import Pipeline
    from scrappybara.preprocessing.sentencizer import Sentencizer
    from scrappybara.preprocessing.tokenizer import Tokenizer
    from scrappybara.syntax.parser import Parser
    from scrappybara.syntax.tags import Tag
    from . import c10, c22
    c22.setup()
    c10.setup()
    t = c22.TABLES
    lm = semfix.LM

    def comp(name, make, calls):
        COMP[name] = (make, calls)

    text = lambda s: ('(%r)' % (s,), lambda c: c(s))
    comp('tokenizer', Tokenizer, [text(s) for s in ('see www.a.com :) now', 'see www.b.org/x?q=1 :( now', "don't", 'Mr. X >= 3ft', '', 'a ♪ ♥ b',
                                                    'A http://x.com/1 a http://x.com/2', None, 5)])
    comp('sentencizer', Sentencizer, [text(s) for s in ('He said "A one. B two." Yes.', 'No "Q', '(open. Next', 'Close) it. "End" www.a.com x', '',
                                                        'One\nTwo', 'ok? (yes. no.) Z', None, 7)])
    comp('two sentencizers', lambda: (Sentencizer(), Sentencizer()),
         [('%d(%r)' % (i, s), lambda c, i=i, s=s: c[i](s)) for i in (0, 1) for s in ('He "A one. B." Yes. www.a.com', 'No "Q', '(x. Y', None)])
    comp('language model', lambda: LanguageModel(1, 1), [
        ('best_token eat/see after i', lambda c: c.best_token('eat', 'see', before='i')),
        ('best_token eat/see after you', lambda c: c.best_token('eat', 'see', before='you')),
        ('best_token eat/see', lambda c: c.best_token('eat', 'see')),
        ('best_token unknown', lambda c: c.best_token('qqq', 'zzz', before='i')),
        ('best_ngram', lambda c: c.best_ngram('zzz', 'i eat')), ('next_word i', lambda c: c.next_word('i')),
        ('next_word I want you, 1', lambda c: c.next_word('want you', 1)), ('next_word i, 0', lambda c: c.next_word('i', 0)),
        ('top 2', lambda c: c.top_ngrams(2)), ('top 2, 1', lambda c: c.top_ngrams(2, 1)), ('top 3', lambda c: c.top_ngrams(3)),
        ('has zzz', lambda c: c.has_ngram('zzz')), ('has eat 100', lambda c: c.has_ngram('eat', 100)), ('has eat 101', lambda c: c.has_ngram('eat', 101)),
        ('best_token of nothing', lambda c: c.best_token(None)), ('next_word None', lambda c: c.next_word(None)),
        ('len', lambda c: (len(c), 'zzz' in c, 'qqq' in c, 'eat' in c))])
    lem = lambda: Lemmatizer(lm, t['adjs'], t['pret'], t['pps'], t['plur'], t['comp'], t['sup'], t['rev'])
    comp('lemmatizer', lem, [('%s %s' % (w, g), lambda c, w=w, g=g: c(w, Tag[g])) for w, g in (
        ('carried', 'VERB'), ('Carried', 'NOUN'), ('cats', 'NOUN'), ('cats', 'VERB'), ('recats', 'NOUN'), ('painted', 'VERB'), ('repainted', 'VERB'), ('better', 'ADJ'),
        ('better', 'ADV'), ('saw', 'VERB'), ('saw', 'NOUN'), ("'s", 'VERB'), ("'s", 'NOUN'), ('stopped', 'VERB'), ('stopped', 'ADJ'),
        ('qqqed', 'VERB'), ('zzzs', 'NOUN'), ('qqqier', 'ADJ'), ('unmen', 'NOUN'))] + [('None', lambda c: c(None, Tag.VERB))])
    comp('standardizer', lambda: Standardizer(lm), [text(s) for s in ('coloured', 'Coloured', 'colored', 'colour', 'xcolours', 'realise', 'catalogues', 'leukaemia', 'aeoe', 'zzzour', None)])
    comp('inflector', lambda: Inflector(lm, t['rev']), [('past participle of %r' % w, lambda c, w=w: c.past_participle(w)) for w in
                                                       ('stop', 'make', 'carry', 'walk', 'love', 'lov', 'stopp', 'agree', 'x', '', None)])
    comp('extraction', lambda: LogicPipeline(lm), [('%s' % k, lambda c, k=k: c.test_sample(copy.deepcopy(SENTS[k]))) for k in SENTS])

    def parse(c, *names):
        tags, trees = c([[w for w, *_ in c10.S[n]] for n in names])
        return [[x.name for x in g] for g in tags], [t and (t.root, sorted((k, str(v)) for k, v in parsefix.links_of(t).items())) for t in trees]
    boot.set_oracle(c10.Gold())
    comp('parser', lambda: Parser(2, 2), [('parse %s' % ' '.join(n), lambda c, n=n: parse(c, *n)) for n in ('a', 'b', 'ab', 'dcn', 'p', 'nap', '')] +
         [('unknown words', lambda c: c([['zzz', 'qqq']])), ('one of three unknown', lambda c: c([['I', 'eat', 'tea', '.'], ['zzz'], ['Hello', '!']]))])
    comp('pipeline', lambda: Pipeline(nb_cores=2, batch_size=2), [('%s %s' % (list(k), ch), lambda c, k=k, ch=ch: c([c10.text_of(x) for x in k], ch)) for k, ch in (
        (('A',), True), (('B',), True), (('A', 'B'), True), (('D',), True), (('D',), False), (('CB',), True), (('CB',), False), (('N', 'A'), True), ((), True))] +
         [('unknown sentence', lambda c: c(['Zzz qqq.', 'I eat tea.'])), ('not a text', lambda c: c(['I eat tea.', None])), ('nothing', lambda c: c(None))])
    # larger alphabets, asked in an order in which every call follows every other one
    lemw = ['carried', 'carries', 'cats', 'boxes', 'men', 'women', 'went', 'undid', 'redid', 'better', 'best', 'worse', 'bigger', 'biggest', 'nicest', 'stopped', 'stopping',
            'loved', 'loving', 'hated', 'qqqs', 'qqqed', 'qqqing', 'panicked', 'wolves', 'lives', 'leaves', 'saw', 'left', 'felt', 'found', 'ground', 'Cats', 'CATS', 'are', "'s", "n't",
            'i', 'me', 'them', 'painted', 'repainted', 'uncats', 'x', '', '12s', 'x-boxes', 'Xavier', 'happier', 'Caf\u00e9s', 'does', 'runs', 'ran', 'run']
    comp('lemmatizer+', lem, [('%s %s' % (w, g), lambda c, w=w, g=g: c(w, Tag[g])) for w in lemw for g in ('NOUN', 'VERB', 'ADJ', 'ADV', 'PROPN')])
    stdw = ['coloured', 'Coloured', 'colored', 'colour', 'color', 'colours', 'xcolours', 'xcolour', 'realise', 'realize', 'realised', 'realising', 'catalogues', 'catalogs', 'leukaemia', 'aeoe',
            'analyse', 'analyze', 'analysed', 'licence', 'license', 'licenced', 'labelled', 'labeled', 'labelling', 'cat', 'see', 'zzz', '', 'our', 'is', 'se', 'ae', 'COLOUR', 'colouring', 'colourist',
            'travelled', 'traveled', 'dialogue', 'dialog', 'oestrogen', 'estrogen', 'favourite', 'favorite', 'tea', 'house', 'organise', 'organize', 'defence', 'defense']
    comp('standardizer+', lambda: Standardizer(lm), [text(s) for s in stdw])
    comp('inflector+', lambda: Inflector(lm, t['rev']), [('past participle of %r' % w, lambda c, w=w: c.past_participle(w)) for w in
         ['stop', 'Stop', 'make', 'carry', 'walk', 'love', 'lov', 'stopp', 'agree', 'x', '', 'go', 'see', 'run', 'put', 'play', 'fix', 'plan', 'visit', 'panic', 'die', 'ski', 'free', 'have', 'be',
          'do', 'redo', 'carr', 'walke', 'ab', 'ob', 'bo', 'by', 'e', 'y', 'make up', 'cafe', 'look', 'loo', 'hat', 'hate']])
    words = ['cat', 'Mr.', 'U.S.', "don't", 'cannot', 'www.a.com/x', 'http://b.org', ':)', ';-(', "'n'", '3.5', '12"', "6'", '>=', '= >', 'a,b', '1,000', '(x)', '"q"', 'end.', 'a--b', 'f**k', '...', '1.2.3',
             'x_y', '@me', '#tag', '50%', '$5', 'a/b', "dogs'", "it's", 'e.g.', '\u201cq\u201d', '\u2014']
    comp('tokenizer+', Tokenizer, [text(s) for w in words for s in (w, 'He saw %s and' % w, '%s Then %s' % (w, w))])
    # texts that differ only in blanks, quotes or case
    near = ['%s' + w for w in ("'n' x", "12' tall", '12" tall', 'Inc. has', "he's", '= > x')]
    near = [v % p for v in near for p in ('', ' ', '\n')] + ['Inc.  has', 'Inc.\thas', 'Inc.\nhas', 'inc. has', 'INC. HAS', 'Inc. has ', '=> x', '‘n’ x', 'he’s', "HE'S", 'he s', 'a "b" c', 'a “b” c',
                                                             "a 'b' c", 'a "b "c', 'A. B', 'A.  B', 'A.B', 'A.\nB', 'a. b', 'A? B', '(A. B)', '( A. B )', '"A. B"', '" A. B "']
    comp('tokenizer~', Tokenizer, [text(s) for s in near])
    comp('sentencizer~', Sentencizer, [text(s) for s in near])
    import itertools as it
    grams = ['eat', 'see', 'zzz', 'i eat', 'you see', 'qqq', 'Eat', 'tea', '']
    comp('language model+', lambda: LanguageModel(1, 1), [('best of %s' % (g,), lambda c, g=g: c.best_ngram(*g)) for n in (1, 2) for g in it.permutations(grams, n)] + [
        ('best of %s' % (g,), lambda c, g=g: c.best_ngram(*g)) for g in it.permutations(['eat', 'see', 'tea', 'zzz'], 3)] + [
        ('best token of %s %s %s' % (g, b, a), lambda c, g=g, b=b, a=a: c.best_token(*g, before=b, after=a)) for g in it.permutations(['eat', 'see', 'zzz', 'Eat'], 2)
        for b in (None, 'i', 'you') for a in (None, 'tea')] + [('next word %r %r' % (w, k), lambda c, w=w, k=k: c.next_word(w, k)) for w in ('i', 'I', 'i ', ' i', 'want you', 'Want you', 'you') for k in (0, 1, 2, 1000)] +
        [('has %r %r' % (w, k), lambda c, w=w, k=k: c.has_ngram(w, k)) for w in ('i eat', 'I eat', 'eat', 'ieat', 'i  eat', 'zzz') for k in (0, 1, 99, 100, 101, 10 ** 9)] +
        [('top %d %d' % (n, k), lambda c, n=n, k=k: c.top_ngrams(n, k)) for n in (1, 2, 3) for k in (0, 1, 2, 10 ** 9)])
    comp('sentencizer+', Sentencizer, [text(s) for w in ('cat', 'Mr. X', '"A. B."', '(c. D?)', '"open', '(open', 'close)', 'www.a.com', '"q" (r) "s"', '("in" out)', 'a\nb', 'x\ty', '!', '?!', ':', 'U.S.')
                                       for s in ('%s' % w, 'He saw %s. Then' % w, '%s Then %s' % (w, w))])
    comp('extraction+', lambda: LogicPipeline(lm), [('sample %d' % k, lambda c, s=s: c.test_sample(copy.deepcopy(s))) for k, s in enumerate(_samples())])
    for name, (make, calls) in COMP.items():
        # a process of its own for each baseline answer
        BASE[name] = alone(lambda i: outcome(calls[i][1], make()), len(calls))


def _samples():
    """Labelled sentences: the templates of C19, each also with one word negated and with all words spelled alike"""
    from .. import semcheck
    from . import c19
    out = []
    for k, t in enumerate(c19.T):
        plain = semcheck.S(*t)
        out += [plain, semcheck.S(*c19.negate(t, [t[k % len(t)][0]])), semcheck.disguise(plain, 3, k)]
    return out


DEPTH = {'quick': {'extraction': 3, 'parser': 3, 'pipeline': 3, 'two sentencizers': 3, 'language model': 3, 'lemmatizer': 3},
         'thorough': {'extraction': 4, 'parser': 4, 'pipeline': 4, 'two sentencizers': 4, 'language model': 4, 'lemmatizer': 4}}
NAMES = ['tokenizer', 'sentencizer', 'two sentencizers', 'language model', 'lemmatizer', 'standardizer', 'inflector', 'extraction', 'parser', 'pipeline']


BULK = ['tokenizer~', 'sentencizer~', 'language model+', 'tokenizer+', 'sentencizer+', 'lemmatizer+', 'standardizer+', 'inflector+', 'extraction+']


def depth(tier, name):
    return DEPTH[tier].get(name, 3 if tier == 'quick' else 5)


def BOUNDS(tier):
    return {'sequences': 'all of length %s over 8 to 17 calls of each component' % {n: depth(tier, n) for n in NAMES},
            'pairs': 'every ordered pair over %s calls, on one instance' % {n: len(COMP[n][1]) for n in BULK if n in COMP},
            'long': 'each pair of calls repeated 160 times alternately, and all calls in turn 40 times'}


def chunks(tier):
    out = []
    for name in NAMES:
        out += [(name, 'seq', i, depth(tier, name)) for i in range(len(COMP[name][1]))]
    out += [(name, 'long', 0, 0) for name in NAMES]
    for name in BULK:
        n = len(COMP[name][1])
        out += [(name, 'bulk', k, 0) for k in range(0, n, 16)]
    return out


def play(name, seq, ctx=None):
    make, calls = COMP[name]
    comp = make()
    for n, i in enumerate(seq):
        got = outcome(calls[i][1], comp)
        if ctx is not None:
            ctx.steps += 1
        if BASE[name][i] == ('failed',):
            continue
        if got != BASE[name][i]:
            return 'the %s, after %s, answers %s with %r instead of %r' % (name, ', '.join(calls[j][0] for j in seq[:n][-4:]) or 'nothing', calls[i][0], got, BASE[name][i])
    return None


def run(chunk, ctx):
    name, kind, first, d = chunk
    n = len(COMP[name][1])
    if kind == 'seq':
        seqs = ((first,) + rest for rest in itertools.product(range(n), repeat=d - 1))
    elif kind == 'bulk':
        # one instance is asked a, b, a, b+1, a, ...: every ordered pair follows on each other
        seqs = [tuple(x for a in range(first, min(n, first + 16)) for b in range(n) for x in (a, b))]
    elif name == 'pipeline':
        seqs = [tuple(range(n)) * 10]
    else:
        k = 20 if name in ('extraction', 'parser') else 160
        seqs = [(a, b) * k for a in range(n) for b in range(a + 1, n)] if name not in ('extraction', 'parser') else [(a, b) * k for a in range(n) for b in (0, (a + 1) % n)]
        seqs.append(tuple(range(n)) * (k // 4))
    boot.set_oracle(_gold())
    for seq in seqs:
        msg = play(name, seq, ctx)
        case = {'component': name, 'calls': list(seq)}
        if msg is not None:
            ctx.fail(case, msg)
            continue
        ctx.done((name, kind, first, tuple(seq[:8])), len(set(seq)) > 1, case)


def _gold():
    from . import c10
    return c10.Gold()


def replay(case):
    setup()
    boot.set_oracle(_gold())
    return play(case['component'], case['calls'])
