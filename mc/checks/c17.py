"""Clauses: every combination of grammatical relations around a verb, noun or clause object, against a relational reference semantics."""
import itertools

from .. import semcheck, semfix
from ..semcheck import S, case

PROP = 'C17'
TITLE = 'Clause predicates'
RULE = 'extracted predicates equal, as a multiset, those of the reference semantics; non-trivial: at least one predicate'
ASSUMES = ['sentences are given as labelled trees', 'the order of predicates within a sentence is not judged']

replay = semcheck.replay


def setup():
    semfix.setup()


NOUNS = [None, ('cat', 'NOUN'), ('I', 'PRON'), ('John', 'PROPN'), ('34', 'NUM'), ('#x', 'SYM'), ('red', 'ADJ')]
VERBS = [('eats', ()), ('is', ()), ('has', ()), ('got', ()), ('does', ()), ('called', ('up',)), ('seem', ()), ('is', ('up',)), ('has', ('out', 'of')), ('got', ('Up',)), ('do', ('off',)), ('been', ()), ('having', ()), ('Did', ()),
         ('painted', ()), ('stopped', ('out', 'off'))]
COMPL = [None, ('PROP', 'big', 'ADJ'), ('PROP', 'bird', 'NOUN'), ('PROP', 'painted', 'ADJ'), ('IPROP', 'red', 'ADJ'), ('IPROP', 'fish', 'NOUN'),
         ('EXIST', 'box', 'NOUN'), ('PROP', 'walk', 'VERB')]
MODS = [(), ('aux',), ('to',), ('modal', 'aux'), ('adv',)]


def BOUNDS(tier):
    return {'disguises': 'every case also in one of %d garbs (far from the start, spread out, capitals, equal words, below another clause, backwards, negated, coordinated), rotating' % semcheck.NB_DISGUISES,
            'verb clauses': '%d verbs (regular, be, have, get, do, with particle) x 7 subjects x 7 objects x 3 recipients x 8 complements x 5 modifications' % len(VERBS),
            'nouns': 'up to 3 adjectives out of 5 x markers x 5 noun classes x 4 positions in the clause',
            'clause objects': 'outer subject/verb x inner subject x 5 inner verbs x inner objects/properties x "to", also nested twice and with a further object',
            'functional words': 'each of the 9 kinds at one argument of every kind and word class and at its conjunct, 4 verbs',
            'other': 'participle with property, comparatives, marked second verbs',
            'trees': 'all trees of 1..2 words x 22 labels x 16 parts of speech; 3 words x %s' % ('9 labels x 5 parts of speech' if tier == 'quick' else '22 labels x 7 parts of speech; 4 words x 9 labels x 3 parts of speech')}


D9 = ['SUBJ', 'OBJ', 'IOBJ', 'PROP', 'IPROP', 'EXIST', 'CPL', 'MARK', 'CMARK']
T5 = ['NOUN', 'VERB', 'ADJ', 'PRON', 'ADV']


def chunks(tier):
    out = [('verb', v) for v in range(len(VERBS))]
    out += [('noun', k) for k in range(5)]
    out += [('clause', k) for k in range(6)]
    out += [('deep', 0), ('other', 0)] + [('func', s) for s in ('SUBJ', 'OBJ', 'IOBJ', 'PROP', 'IPROP', 'EXIST', 'CPL')]
    out += [('tree', 1, 22, 16, 0, 1)] + [('tree', 2, 22, 16, k, 4) for k in range(4)]
    if tier == 'quick':
        out += [('tree', 3, 9, 5, k, 24) for k in range(24)]
    else:
        out += [('tree', 3, 22, 7, k, 128) for k in range(128)]
        out += [('tree', 4, 9, 3, k, 160) for k in range(160)]
    return out


def verb_clauses(verb):
    word, parts = verb
    for s, o, io, c, m in itertools.product(NOUNS, NOUNS + [('sing', 'VERB')], [None, ('dog', 'NOUN'), ('him', 'PRON')], COMPL, MODS):
        yield S(s and ('s', s[0], s[1], 'SUBJ', 'v'),
                'modal' in m and ('m', 'can', 'MAT', 'MODAL', 'v'), 'aux' in m and ('x', 'have', 'MAT', 'AUX', 'v'), 'to' in m and ('t', 'to', 'FRAG', 'PART', 'v'),
                ('v', word, 'VERB', 'ROOT', None), *[('p%d' % i, p, 'FRAG', 'PART', 'v') for i, p in enumerate(parts)],
                io and ('i', io[0], io[1], 'IOBJ', 'v'), o and ('o', {'cat': 'tea', 'I': 'them', 'John': 'Paris'}.get(o[0], o[0]), o[1], 'OBJ', 'v'),
                c and ('c', c[1], c[2], c[0], 'v'), 'adv' in m and ('a', 'nice', 'ADV', 'CPL', 'v'), ('.', '.', 'PUNCT', 'NODEP', None))


def nouns(k):
    tag, word = [('NOUN', 'cats'), ('PROPN', 'London'), ('PRON', 'them'), ('NUM', '50'), ('SYM', 'a.com')][k]
    adjs = [('red', 'ADJ'), ('painted', 'ADJ'), ('bigger', 'ADJ'), ('two', 'NUM'), ('old', 'NOUN')]
    for n in range(0, 4):
        for combo in itertools.permutations(adjs, n):
            for mark in ((None, 'MARK', 'CMARK', 'IMARK') if n else (None,)):
                for slot in ('SUBJ', 'OBJ', 'PROP', 'ROOT', 'IOBJ'):
                    ad = [('a%d' % i, a[0], a[1], 'CPL', 'n') for i, a in enumerate(combo)]
                    mk = mark and ('m', 'of', 'PREP', mark, 'a0')
                    if slot == 'ROOT':
                        yield S(mk, *ad, ('n', word, tag, 'ROOT', None))
                    elif slot == 'SUBJ':
                        yield S(mk, *ad, ('n', word, tag, 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'hot', 'ADJ', 'PROP', 'v'))
                    else:
                        yield S(('s', 'You', 'PRON', 'SUBJ', 'v'), ('v', 'made', 'VERB', 'ROOT', None), mk, *ad, ('n', word, tag, slot, 'v'))


INNER = [('sing', ()), ('eat', ('OBJ',)), ('be', ('PROP',)), ('has', ('OBJ',)), ('be', ()), ('get', ()), ('eat', ('OBJ', 'IPROP')), ('be', ('EXIST',)),
         ('give', ('OBJ', 'IOBJ'))]
SUBJ = [(), (('I', 'PRON'),), (('cat', 'NOUN'), ('John', 'PROPN')), (('red', 'ADJ'),), (('red', 'ADJ'), ('cat', 'NOUN'))]
FILL = {'OBJ': [('tea', 'NOUN'), ('it', 'PRON'), ('small', 'ADJ')], 'PROP': [('tall', 'ADJ'), ('painted', 'ADJ'), ('bird', 'NOUN'), ('run', 'VERB')],
        'IPROP': [('hot', 'ADJ')], 'EXIST': [('box', 'NOUN')], 'IOBJ': [('dog', 'NOUN')]}


def clauses(part):
    num = 0
    for outer, (inner, slots), s1, s2 in itertools.product(('want', 'think', 'have', 'be'), INNER, SUBJ, SUBJ):
        for fills in itertools.product(*[FILL[s] for s in slots]):
            for to, extra, outer_to, oprop in itertools.product((0, 1), (None, 'noun', 'iobj'), (0, 1), (None, 'IPROP')):
                num += 1
                if num % 6 != part:
                    continue
                subj1 = [('s0', s1[0][0], s1[0][1], 'SUBJ', 'v')] + [('s1', s1[1][0], s1[1][1], 'AND', 's0')] if len(s1) > 1 else [('s0', s1[0][0], s1[0][1], 'SUBJ', 'v')] if s1 else []
                subj2 = [('z0', s2[0][0], s2[0][1], 'SUBJ', 'w')] + ([('z1', s2[1][0], s2[1][1], 'AND', 'z0')] if len(s2) > 1 else []) if s2 else []
                yield S(*subj1, outer_to and ('t0', 'to', 'FRAG', 'PART', 'v'), ('v', outer, 'VERB', 'ROOT', None), extra == 'iobj' and ('i', 'him', 'PRON', 'IOBJ', 'v'),
                        *subj2, to and ('t1', 'to', 'FRAG', 'PART', 'w'), ('w', inner, 'VERB', 'OBJ', 'v'),
                        *[('f%d' % i, f[0], f[1], d, 'w') for i, (d, f) in enumerate(zip(slots, fills))],
                        extra == 'noun' and ('n', 'key', 'NOUN', 'AND', 'w'), oprop and ('q', 'nice', 'ADJ', oprop, 'v'))


def deep():
    for s1, s2, s3, to, o in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (None, 'NOUN', 'ADJ')):
        yield S(s1 and ('s1', 'I', 'PRON', 'SUBJ', 'a'), ('a', 'think', 'VERB', 'ROOT', None), s2 and ('s2', 'you', 'PRON', 'SUBJ', 'b'),
                ('b', 'want', 'VERB', 'OBJ', 'a'), s3 and ('s3', 'John', 'PROPN', 'SUBJ', 'c'), to and ('t', 'to', 'FRAG', 'PART', 'c'),
                ('c', 'see', 'VERB', 'OBJ', 'b'), o and ('o', 'dog', o, 'OBJ', 'c'))
        # two clause objects of one verb
        yield S(s1 and ('s1', 'I', 'PRON', 'SUBJ', 'a'), ('a', 'want', 'VERB', 'ROOT', None), s2 and ('s2', 'you', 'PRON', 'SUBJ', 'b'), ('b', 'sing', 'VERB', 'OBJ', 'a'),
                s3 and ('s3', 'he', 'PRON', 'SUBJ', 'c'), ('c', 'walk', 'VERB', 'OBJ' if to else 'AND', 'a' if to else 'b'), o and ('o', 'dog', o, 'OBJ', 'c'))


def other():
    # participle with a property: "a man called John"
    for pp, mark, prop, ptag, conj in itertools.product(('called', 'painted', 'red', 'nice'), (None, 'MARK', 'CMARK', 'IMARK'), (None, 'John', 'red', 'walk'),
                                                        ('PROPN', 'ADJ', 'VERB', 'NOUN'), (None, 'AND', 'OR')):
        for ntag in ('NOUN', 'VERB', 'PRON'):
            yield S(('n', 'cat', ntag, 'ROOT', None), mark and ('m', 'as', 'PREP', mark, 'a'), ('a', pp, 'ADJ', 'CPL', 'n'), prop and ('p', prop, ptag, 'PROP', 'a'),
                    conj and ('q', 'Bob', 'PROPN', conj, 'p'))
    # comparatives: "a car bigger than a house"
    for adj, atag, cm, ctag, slot in itertools.product(('bigger', 'painted'), ('ADJ', 'NOUN', 'ADV'), ('CMARK', 'MARK', None), ('NOUN', 'PRON', 'ADJ', 'VERB'), ('CPL', 'PROP')):
        for two in (0, 1):
            yield S(('s', 'car', 'NOUN', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('a', adj, atag, slot, 'v' if slot == 'PROP' else 's'),
                    cm and ('m', 'than', 'CONJ', cm, 'c'), ('c', 'house', ctag, 'CPL', 'a'), two and ('d', 'small', 'ADJ', 'AND', 'a'))
    # marked second verb: "I ate but did not drink"
    for subj, mark, own, obj, tag2, obj1, ptag in itertools.product((None, 'NOUN', 'PRON', 'ADJ'), (None, 'MARK', 'CMARK', 'IMARK'), (0, 1), (None, 'NOUN'),
                                                                     ('VERB', 'NOUN', 'ADJ'), (0, 1), ('VERB', 'NOUN')):
        yield S(subj and ('s', 'cat', subj, 'SUBJ', 'v'), ('v', 'ate', ptag, 'ROOT', None), obj1 and ('x', 'fish', 'NOUN', 'OBJ', 'v'), mark and ('m', 'but', 'CONJ', mark, 'w'),
                own and ('t', 'dogs', 'NOUN', 'SUBJ', 'w'), ('w', 'run', tag2, 'CPL', 'v'), obj and ('o', 'tea', 'NOUN', 'OBJ', 'w'))


FUNC = [None, ('in', 'PREP', 'MARK'), ('than', 'CONJ', 'CMARK'), ('if', 'CONJ', 'IMARK'), ('the', 'DET', 'ART'), ('not', 'ADV', 'NEG'), ('oh', 'EXPR', 'INTJ'), ('up', 'FRAG', 'PART'),
        ('do', 'MAT', 'AUX'), ('can', 'MAT', 'MODAL')]
ARGS = [('house', 'NOUN'), ('red', 'ADJ'), ('them', 'PRON'), ('painted', 'ADJ'), ('sing', 'VERB'), ('Bob', 'PROPN')]


def functional(slot):
    """one word of a clause, and its conjunct, introduced by a functional word of every kind"""
    for verb, obj, (w, tag), f1, f2 in itertools.product(('is', 'eat', 'has', 'made'), (0, 1), ARGS, FUNC, (0,) + tuple(FUNC)):
        items = [] if slot == 'SUBJ' else [('s', 'cat', 'NOUN', 'SUBJ', 'v')]
        arg = [f1 and ('f',) + f1 + ('x',), ('x', w, tag, slot, 's' if slot == 'CPL' else 'v')]
        if f2 != 0:
            arg += [f2 and ('g',) + f2 + ('y',), ('y', 'small' if tag == 'ADJ' else 'key', 'ADJ' if tag == 'ADJ' else 'NOUN', 'AND', 'x')]
        if slot in ('SUBJ', 'CPL'):
            items += arg
        items.append(('v', verb, 'VERB', 'ROOT', None))
        if slot not in ('SUBJ', 'CPL'):
            items += arg
        if obj:
            items.append(('o', 'tea', 'NOUN', 'OBJ' if slot != 'OBJ' else 'PROP', 'v'))
        yield S(*items)


def run(chunk, ctx):
    k = chunk[0]
    if k == 'verb':
        it = verb_clauses(VERBS[chunk[1]])
    elif k == 'noun':
        it = nouns(chunk[1])
    elif k == 'clause':
        it = clauses(chunk[1])
    elif k == 'func':
        it = functional(chunk[1])
    elif k == 'deep':
        it = deep()
    elif k == 'other':
        it = other()
    else:
        _, n, nd, nt, part, parts = chunk
        deps = {22: semcheck.DEPS, 9: D9}[nd]
        tags = {16: list(semcheck.WORDS), 7: T5 + ['PROPN', 'NUM'], 5: T5, 3: ['NOUN', 'VERB', 'ADJ']}[nt]
        it = semcheck.trees(n, deps, tags, part, parts)
    for s in it:
        case(ctx, s)
