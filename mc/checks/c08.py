"""Components shared by threads: all interleavings of two (three) threads up to a preemption bound, against solo results."""
import time

from .. import boot, nets, parsefix, sched, semfix
from ..core import exc_text

PROP = 'C08'
TITLE = 'Shared components'
RULE = 'every thread gets what it gets alone; non-trivial: a preemption happened inside the component'
ASSUMES = ['threads switch between lines of the code under test (switches inside one line are not explored)',
           'networks are deterministic functions of what they are shown']
TECHNIQUE = 'model checking: stateless exploration of all thread interleavings of the real code up to a preemption bound'

FILES = None
SCEN = {}
SOLO = {}
WHERE = {}  # scenario -> the part of the code in which its threads are switched (all of it otherwise)

SENT1 = [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('hot', 'ADJ', 'CPL', 3), ('tea', 'NOUN', 'OBJ', 1)]
SENT3 = [('apple', 'NOUN', 'ROOT', -1), ('I', 'PRON', 'SUBJ', 2), ('ate', 'VERB', 'CPL', 0)]
SENT4 = [('I', 'PRON', 'SUBJ', 1), ('ate', 'VERB', 'ROOT', -1), ('but', 'CONJ', 'CMARK', 3), ('drank', 'VERB', 'CPL', 1)]
SENT2 = [('Stock', 'NOUN', 'CPL', 1), ('market', 'NOUN', 'SUBJ', 3), ('not', 'ADV', 'NEG', 3), ('carried', 'VERB', 'ROOT', -1), ('John', 'PROPN', 'OBJ', 3), ('Smith', 'PROPN', 'FLAT', 4),
         ('up', 'PREP', 'PART', 3)]


def sview(stuples):
    return sorted(semfix.view(stuples))


def setup():
    global FILES
    if SCEN:
        return
    semfix.setup()
    parsefix.setup()
    FILES = str(boot.REPO) + '/scrappybara'
    from scrappybara.langmodel.language_model import LanguageModel
    from scrappybara.normalization.inflector import Inflector
    from scrappybara.normalization.lemmatizer import Lemmatizer
    from scrappybara.normalization.standardizer import Standardizer
    from scrappybara.preprocessing.sentencizer import Sentencizer
    from scrappybara.preprocessing.tokenizer import Tokenizer
    from scrappybara.syntax.tags import Tag
    from scrappybara.utils.tree import Tree
    from .c22 import setup as lem_setup, TABLES
    lem_setup()
    from . import c22
    t = c22.TABLES
    lm = semfix.LM
    lem = lambda: Lemmatizer(lm, t['adjs'], t['pret'], t['pps'], t['plur'], t['comp'], t['sup'], t['rev'])

    # name -> (make shared component, list of calls on it, preemption bound quick / thorough, threads)
    def scen(name, make, calls, bq=1, bt=2):
        SCEN[name] = (make, calls, {'quick': bq, 'thorough': bt})
    scen('tokenizer links', Tokenizer, [lambda c: c('see www.a.com :) or 12" now'), lambda c: c("don't www.b.org/x?q=1 Mr. X >= 3ft")])
    scen('tokenizer same', Tokenizer, [lambda c: c('a http://x.com/1 b'), lambda c: c('a http://x.com/2 b')])
    scen('sentencizer', Sentencizer, [lambda c: c('He said "A one. B two." (x y) ok? Yes.'), lambda c: c('No "Q here" and (some "inner" text). End\nNew (z).')], 1, 1)
    scen('two sentencizers', lambda: (Sentencizer(), Sentencizer()), [lambda c: c[0]('see www.a.com "A. B." x'), lambda c: c[1]('(c) www.b.com/y "C"')], 1, 1)
    scen('language model', lambda: LanguageModel(1, 1), [lambda c: (c.best_token('eat', 'see', before='i'), c.best_ngram('you see', 'i eat'), c.next_word('i')),
                                                         lambda c: (c.best_token('see', 'eat', before='you', after='tea'), c.next_word('you'), [x[0] for x in c.top_ngrams(2)])], 1, 1)
    scen('lemmatizer', lem, [lambda c: (c('carried', Tag.VERB), c('cats', Tag.NOUN)), lambda c: (c('boxes', Tag.NOUN), c('repainted', Tag.VERB))])
    # readings decided by what a verb follows
    from .. import lmfix
    lobs = c22.lemmatizer({'lob': (9, 0.01), 'lobe': (9, 0.02), 'i lob': (9, 0.02), 'we lob': (9, 0.01), 'bark': (5, 0.01), 'barke': (5, 0.03), 'you bark': (5, 0.01), 'tall': (3, 0.01),
                           'talle': (3, 0.02), 'they tall': (3, 0.01)})
    boot.set_data_dir(boot.DATA)
    scen('lemmatizer readings', lambda: lobs, [lambda c: (c('lobes', Tag.VERB), c('barked', Tag.VERB)), lambda c: (c('lobes', Tag.NOUN), c('taller', Tag.ADJ))])
    scen('standardizer', lambda: Standardizer(lm), [lambda c: (c('coloured'), c('realise')), lambda c: (c('xcolour'), c('catalogues'))])
    scen('inflector', lambda: Inflector(lm, t['rev']), [lambda c: (c.past_participle('stop'), c.past_participle('make')), lambda c: (c.past_participle('carry'), c.past_participle('walk'))])
    scen('extraction', lambda: semfix.LP, [lambda c: sview(c.test_sample(SENT1)), lambda c: sview(c.test_sample(SENT2))], 1, 1)
    scen('extraction same', lambda: semfix.LP, [lambda c: sview(c.test_sample(SENT2)), lambda c: sview(c.test_sample(SENT2[:4]))], 1, 1)
    scen('extraction naked', lambda: semfix.LP, [lambda c: sview(c.test_sample(SENT3)), lambda c: sview(c.test_sample(SENT4))], 1, 1)

    def grown():
        tree = Tree(0)
        for l, p, c in (('x', 0, 1), ('y', 0, 2), ('x', 1, 3), ('x', 3, 4)):
            tree.register_child(l, p, c)
        return tree
    reads = lambda c: (sorted(c), len(c), c.children(0), c.descendants_via(0, 'x'), c.ancestors_via(4, 'x'), c.siblings(1), c.nodes)
    scen('tree', grown, [reads, lambda c: (c.siblings(2), sorted(c), c.children_via(0, 'x'), c.parent(3))])
    # the pipeline runs its own worker threads over the texts
    from . import c10
    c10.setup()
    boot.set_oracle(c10.Gold())
    from scrappybara.pipeline.pipeline import Pipeline
    pipe = Pipeline(nb_cores=2, batch_size=2)

    def docs(c, keys, chunk=True):
        return [[sview(s) for s in d] for d in c([c10.text_of(k) for k in keys], chunk)]
    scen('pipeline workers', lambda: pipe, [lambda c: docs(c, ['A', 'B'])], 1, 1)
    scen('pipeline calls', lambda: pipe, [lambda c: docs(c, ['A']), lambda c: docs(c, ['D'], False)], 1, 1)
    # the parser's own workers, at every line of the parser (and of the encoding)
    from scrappybara.syntax.parser import Parser

    def parsed(c, *names):
        tags, trees = c([[w for w, *_ in c10.S[n]] for n in names])
        return [[x.name for x in g] for g in tags], [t and (t.root, sorted((k, str(v)) for k, v in parsefix.links_of(t).items())) for t in trees]
    par = Parser(2, 2)
    for suffix, part in (('', '/syntax/parser'), (' encoding', '/syntax/training_samples')):
        scen('parser workers' + suffix, lambda: par, [lambda c: parsed(c, 'a', 'd')], 1, 1)
        scen('parser calls' + suffix, lambda: par, [lambda c: parsed(c, 'a'), lambda c: parsed(c, 'd')], 1, 1)
        WHERE['parser workers' + suffix] = WHERE['parser calls' + suffix] = FILES + part
    scen('pipeline steps', lambda: pipe, [lambda c: docs(c, ['A', 'D'])], 1, 1)
    WHERE['pipeline steps'] = FILES + '/pipeline/'
    scen('three tokenizers', Tokenizer, [lambda c: c('a www.a.com'), lambda c: c(':) b'), lambda c: c("it's 3'")], 1, 2)
    from . import c09
    c09.setup()
    for name, (make, calls, _) in SCEN.items():
        # what each call gives alone, on a component of its own
        SOLO[name] = [call(make()) for call in calls]


# every pair of calls of the alphabets of C09 on one shared instance: component -> (distances of the pairs, opcode level)
PAIRS = {'quick': {'lemmatizer': None, 'standardizer': None, 'inflector': None, 'language model': (0, 1, 2, 5), 'tokenizer': (0, 1, 3), 'sentencizer': (0, 1), 'two sentencizers': (4,), 'extraction': (1,)},
         'thorough': {'lemmatizer': None, 'standardizer': None, 'inflector': None, 'language model': None, 'tokenizer': None, 'sentencizer': (0, 1, 2, 3), 'two sentencizers': (1, 4), 'extraction': (0, 1, 2, 3)}}
EVERY_PAIR = {'quick': {'extraction': 24, 'sentencizer': 4, 'two sentencizers': 4, 'tokenizer': 2, 'language model': 2}, 'thorough': {}}
SAME = ('language model', 'tokenizer', 'sentencizer')
OPS = {'quick': ('inflector', 'standardizer', 'lemmatizer'), 'thorough': ('inflector', 'standardizer', 'lemmatizer', 'language model', 'tokenizer')}


def pairs(tier):
    from . import c09
    for name, dist in PAIRS[tier].items():
        n = len(c09.COMP[name][1])
        ok = [i for i in range(n) if c09.BASE[name][i] != ('failed',)]
        for i in ok:
            for j in ok:
                if dist is None or (j - i) % n in dist:
                    yield name, i, j


BIG = {'sentencizer': 4, 'two sentencizers': 4, 'extraction': 8, 'extraction same': 8, 'pipeline workers': 16, 'pipeline calls': 16, 'language model': 4, 'extraction naked': 8, 'parser workers': 8, 'parser calls': 8, 'parser workers encoding': 8, 'parser calls encoding': 8, 'pipeline steps': 8}
EVERY = {'quick': {'pipeline workers': 25, 'pipeline calls': 25, 'extraction': 4, 'extraction same': 4, 'extraction naked': 2}, 'thorough': {}}
NAMES = ['tokenizer links', 'tokenizer same', 'sentencizer', 'two sentencizers', 'language model', 'lemmatizer', 'lemmatizer readings', 'standardizer', 'inflector', 'extraction',
         'extraction same', 'tree', 'pipeline workers', 'pipeline calls', 'three tokenizers', 'extraction naked', 'parser workers', 'parser calls', 'parser workers encoding', 'parser calls encoding', 'pipeline steps']


def BOUNDS(tier):
    if tier == 'quick':
        return {'schedules': 'all with at most 1 preemption, at every executed line of the component (pipeline: at every 25th line, extraction: at every fourth), at most 1 other choice', 'pairs of calls': 'of the alphabets of C09, on one instance of every component, at every line (some: every n-th) and for lemmatizer, standardizer, inflector at every third bytecode instruction', 'threads': '2 to 3 (plus those the code starts itself)', 'scenarios': ', '.join(NAMES)}
    return {'schedules': 'all with at most 2 preemptions (1 for sentencizer, language model, extraction, pipeline), at every executed line of the component', 'pairs of calls': 'of the alphabets of C09, at every line and (cheap components) at every bytecode instruction', 'threads': '2 to 3 (plus those the code starts itself)', 'scenarios': ', '.join(NAMES)}


def chunks(tier):
    out = []
    for name in NAMES:
        m = BIG.get(name, 4) if tier == 'quick' else 16
        e = EVERY[tier].get(name, 1)
        out += [(name, r * e, m * e, tier) for r in range(m)]
    for name, i, j in pairs(tier):
        # both ask the same thing: the narrowest races, so at every line
        e = EVERY_PAIR[tier].get(name, 1) if i != j or name not in SAME else 1
        out.append(('pair', name, i, j, (i + j) % e, e, tier, False))
        if name in OPS[tier] and (tier == 'thorough' or (j - i) % 7 == 1):
            e = 3 if tier == 'quick' else 1
            out.append(('pair', name, i, j, (i + j) % e, e, tier, True))
    return out


def pair_bodies(name, i, j):
    from . import c09
    make, calls = c09.COMP[name]

    def bodies():
        comp = make()
        return [lambda: c09.outcome(calls[i][1], comp), lambda: c09.outcome(calls[j][1], comp)]
    return bodies


def judge_pair(ex, name, i, j):
    from . import c09
    for t, k in enumerate((i, j)):
        if t in ex.errors:
            return 'thread %d on the %s fails: %s' % (t, name, exc_text(ex.errors[t]))
        if ex.results.get(t) != c09.BASE[name][k]:
            return 'thread %d on the %s, asking %s, gets %r instead of %r' % (t, name, c09.COMP[name][1][k][0], ex.results.get(t), c09.BASE[name][k])
    return None


def judge_all(ex, name):
    for i, want in enumerate(SOLO[name]):
        if i in ex.errors:
            return 'thread %d of "%s" fails: %s' % (i, name, exc_text(ex.errors[i]))
        if ex.results.get(i) != want:
            return 'thread %d of "%s" gets %r instead of %r' % (i, name, ex.results.get(i), want)
    return None


def run_pair(chunk, ctx):
    _, name, i, j, r, m, tier, ops = chunk
    base = {'component': name, 'calls': [i, j], 'opcodes': ops}

    def visit(ex, schedule):
        ctx.steps += len(ex.log)
        msg = judge_pair(ex, name, i, j)
        case = dict(base, schedule=[list(s) for s in schedule])
        if msg:
            ctx.fail(case, msg)
        else:
            ctx.done((name, i, j, ops, schedule), len(schedule) > 0, case)
    try:
        _, full = sched.explore(pair_bodies(name, i, j), FILES, 1, visit, part=(r, m), free_bound=1, deadline=time.time() + (60 if tier == 'quick' else 1200), opcodes=ops,
                                judge=lambda ex: judge_pair(ex, name, i, j))
        if not full:
            ctx.extra['cut_short'] += 1
    except sched.Stuck as e:
        ctx.fail(base, 'the threads do not come to an end: %s' % e)


def run(chunk, ctx):
    if chunk[0] == 'pair':
        return run_pair(chunk, ctx)
    name, r, m, tier = chunk
    make, calls, bounds = SCEN[name]

    def bodies():
        comp = make()
        return [lambda call=call: call(comp) for call in calls]

    def visit(ex, schedule):
        ctx.steps += len(ex.log)
        case = {'scenario': name, 'schedule': [list(s) for s in schedule]}
        msg = judge_all(ex, name)
        if msg:
            ctx.fail(case, msg)
        else:
            ctx.done((name, schedule), len(schedule) > 0, case)
    try:
        n, full = sched.explore(bodies, WHERE.get(name, FILES), bounds[tier], visit, part=(r, m), free_bound={'quick': 1, 'thorough': 2}[tier], deadline=time.time() + (120 if tier == 'quick' else 2400),
                                judge=lambda ex: judge_all(ex, name))
        if not full:
            ctx.extra['cut_short'] += 1
    except sched.Stuck as e:
        ctx.fail({'scenario': name}, 'the threads do not come to an end: %s' % e)


def replay(case):
    setup()
    if 'component' in case:
        ex = sched.Execution(pair_bodies(case['component'], *case['calls'])(), FILES, [tuple(s) for s in case.get('schedule', [])], opcodes=case['opcodes'])
        try:
            ex.run()
        except sched.Stuck as e:
            return str(e)
        return judge_pair(ex, case['component'], *case['calls'])
    name = case['scenario']
    make, calls, _ = SCEN[name]
    comp = make()
    ex = sched.Execution([lambda call=call: call(comp) for call in calls], WHERE.get(name, FILES), [tuple(s) for s in case.get('schedule', [])])
    try:
        ex.run()
    except sched.Stuck as e:
        return str(e)
    return judge_all(ex, name)
