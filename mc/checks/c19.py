"""Polarity: every subset of negated words in every clause shape."""
import itertools

from .. import semcheck, semfix
from ..semcheck import S, case
from .c18 import BASE, group

PROP = 'C19'
TITLE = 'Polarity is parity'
RULE = 'extracted predicates, with polarity, equal those of the reference semantics; for plain clauses polarity is also counted directly; ' \
       'non-trivial: at least one predicate'
ASSUMES = ['sentences are given as labelled trees; a word is negated by a NEG dependent']


def setup():
    semfix.setup()


def templates():
    """Clause shapes as item lists; every word may be negated"""
    t = []
    A = t.append
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'run', 'VERB', 'ROOT', None)])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'see', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v')])
    A([('v', 'see', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'give', 'VERB', 'ROOT', None), ('i', 'dog', 'NOUN', 'IOBJ', 'v'), ('o', 'tea', 'NOUN', 'OBJ', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'big', 'ADJ', 'PROP', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'painted', 'ADJ', 'PROP', 'v'), ('m', 'by', 'PREP', 'MARK', 'g'), ('g', 'John', 'PROPN', 'CPL', 'p')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'paint', 'VERB', 'ROOT', None), ('o', 'door', 'NOUN', 'OBJ', 'v'), ('p', 'red', 'ADJ', 'IPROP', 'v')])
    A([('v', 'paint', 'VERB', 'ROOT', None), ('o', 'door', 'NOUN', 'OBJ', 'v'), ('p', 'red', 'ADJ', 'IPROP', 'v')])
    A([('a', 'red', 'ADJ', 'CPL', 'n'), ('n', 'cat', 'NOUN', 'ROOT', None)])
    A([('n', 'cat', 'NOUN', 'ROOT', None), ('a', 'painted', 'ADJ', 'CPL', 'n'), ('m', 'by', 'PREP', 'MARK', 'g'), ('g', 'John', 'PROPN', 'CPL', 'a')])
    A([('n', 'cat', 'NOUN', 'ROOT', None), ('a', 'called', 'ADJ', 'CPL', 'n'), ('g', 'John', 'PROPN', 'PROP', 'a')])
    A([('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'want', 'VERB', 'ROOT', None), ('t', 'to', 'FRAG', 'PART', 'w'), ('w', 'sing', 'VERB', 'OBJ', 'v')])
    A([('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'think', 'VERB', 'ROOT', None), ('z', 'you', 'PRON', 'SUBJ', 'w'), ('w', 'see', 'VERB', 'OBJ', 'v'), ('o', 'tea', 'NOUN', 'OBJ', 'w')])
    A([('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'think', 'VERB', 'ROOT', None), ('z', 'you', 'PRON', 'SUBJ', 'w'), ('w', 'be', 'VERB', 'OBJ', 'v'), ('p', 'old', 'ADJ', 'PROP', 'w')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('c', 'dog', 'NOUN', 'AND', 's'), ('v', 'see', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v'), ('d', 'fish', 'NOUN', 'OR', 'o')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('c', 'dog', 'NOUN', 'AND', 's'), ('e', 'John', 'PROPN', 'AND', 's'), ('v', 'see', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'eat', 'VERB', 'ROOT', None), ('w', 'run', 'VERB', 'AND', 'v'), ('x', 'sing', 'VERB', 'AND', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'ate', 'VERB', 'ROOT', None), ('m', 'but', 'CONJ', 'MARK', 'w'), ('w', 'run', 'VERB', 'CPL', 'v')])
    A([('n', 'cat', 'NOUN', 'ROOT', None), ('r', 'that', 'PRON', 'SUBJ', 'w'), ('w', 'eat', 'VERB', 'CPL', 'n'), ('o', 'fish', 'NOUN', 'OBJ', 'w')])
    A([('n', 'cat', 'NOUN', 'ROOT', None), ('r', 'you', 'PRON', 'SUBJ', 'w'), ('w', 'like', 'VERB', 'CPL', 'n')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'see', 'VERB', 'ROOT', None), ('o', 'himself', 'PRON', 'OBJ', 'v')])
    A([('s', 'car', 'NOUN', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('a', 'bigger', 'ADJ', 'PROP', 'v'), ('m', 'than', 'CONJ', 'CMARK', 'c'), ('c', 'house', 'NOUN', 'CPL', 'a')])
    A([('h', 'hot', 'ADJ', 'CPL', 's'), ('s', 'tea', 'NOUN', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'nice', 'ADJ', 'PROP', 'v'), ('q', 'old', 'ADJ', 'AND', 'p')])
    A([('f', 'John', 'PROPN', 'SUBJ', 'v'), ('l', 'Smith', 'PROPN', 'FLAT', 'f'), ('v', 'look', 'VERB', 'ROOT', None), ('u', 'up', 'FRAG', 'PART', 'v'), ('o', 'tea', 'NOUN', 'OBJ', 'v')])
    A([('k', 'stock', 'NOUN', 'CPL', 's'), ('s', 'market', 'NOUN', 'SUBJ', 'v'), ('v', 'help', 'VERB', 'ROOT', None), ('o', 'him', 'PRON', 'OBJ', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'called', 'VERB', 'ROOT', None), ('u', 'up', 'FRAG', 'PART', 'v'), ('o', 'door', 'NOUN', 'OBJ', 'v'), ('p', 'red', 'ADJ', 'IPROP', 'v'), ('q', 'big', 'ADJ', 'AND', 'p')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('c', 'dog', 'NOUN', 'AND', 's'), ('v', 'paint', 'VERB', 'ROOT', None), ('o', 'door', 'NOUN', 'OBJ', 'v'), ('d', 'box', 'NOUN', 'AND', 'o'), ('p', 'red', 'ADJ', 'IPROP', 'v')])
    A([('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'think', 'VERB', 'ROOT', None), ('w', 'want', 'VERB', 'OBJ', 'v'), ('z', 'John', 'PROPN', 'SUBJ', 'w'), ('x', 'see', 'VERB', 'OBJ', 'w'), ('o', 'tea', 'NOUN', 'OBJ', 'x')])
    A([('s', 'I', 'PRON', 'SUBJ', 'v'), ('b', 'dog', 'NOUN', 'AND', 's'), ('v', 'want', 'VERB', 'ROOT', None), ('z', 'he', 'PRON', 'SUBJ', 'w'), ('w', 'be', 'VERB', 'OBJ', 'v'), ('p', 'painted', 'ADJ', 'PROP', 'w'), ('q', 'bird', 'NOUN', 'OR', 'p')])
    A([('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'find', 'VERB', 'ROOT', None), ('z', 'myself', 'PRON', 'SUBJ', 'w'), ('w', 'like', 'VERB', 'OBJ', 'v'), ('o', 'tea', 'NOUN', 'OBJ', 'w'), ('p', 'fish', 'NOUN', 'AND', 'o')])
    A([('n', 'cat', 'NOUN', 'SUBJ', 'v'), ('r', 'who', 'PRON', 'SUBJ', 'w'), ('w', 'is', 'VERB', 'CPL', 'n'), ('p', 'big', 'ADJ', 'PROP', 'w'), ('v', 'eat', 'VERB', 'ROOT', None), ('o', 'fish', 'NOUN', 'OBJ', 'v')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('b', 'dog', 'NOUN', 'OR', 's'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'painted', 'ADJ', 'PROP', 'v'), ('m', 'by', 'PREP', 'MARK', 'g'), ('g', 'John', 'PROPN', 'CPL', 'p'), ('h', 'she', 'PRON', 'AND', 'g')])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('b', 'dog', 'NOUN', 'AND', 's'), ('v', 'give', 'VERB', 'ROOT', None), ('i', 'him', 'PRON', 'IOBJ', 'v'), ('j', 'Bob', 'PROPN', 'AND', 'i')])
    A([('a', 'red', 'ADJ', 'CPL', 'n'), ('b', 'old', 'ADJ', 'AND', 'a'), ('n', 'cat', 'NOUN', 'SUBJ', 'v'), ('m', 'dog', 'NOUN', 'AND', 'n'), ('v', 'run', 'VERB', 'ROOT', None)])
    A([('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('b', 'dog', 'NOUN', 'AND', 's'), ('v', 'see', 'VERB', 'ROOT', None), ('w', 'like', 'VERB', 'AND', 'v'), ('o', 'tea', 'NOUN', 'OBJ', 'v'), ('x', 'hate', 'VERB', 'OR', 'v'), ('p', 'fish', 'NOUN', 'OBJ', 'x')])
    A([('n', 'cat', 'NOUN', 'ROOT', None), ('m', 'dog', 'NOUN', 'AND', 'n'), ('a', 'called', 'ADJ', 'CPL', 'n'), ('g', 'John', 'PROPN', 'PROP', 'a'), ('h', 'Bob', 'PROPN', 'OR', 'g')])
    A([('s', 'red', 'ADJ', 'SUBJ', 'v'), ('b', 'dog', 'NOUN', 'AND', 's'), ('v', 'like', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v')])
    return t


T = templates()


def BOUNDS(tier):
    return {'disguises': 'every case also in one of %d garbs (far from the start, spread out, capitals, equal words, below another clause, backwards, negated, coordinated), rotating' % semcheck.NB_DISGUISES,
            'templates': '%d clause shapes x every subset of their words negated, negation before or after the word, with an auxiliary' % len(T),
            'double negation': 'two NEG dependents on one word count once',
            'subjects': '1..6 coordinated subjects x every subset negated x verb x object, passive subject rule counted directly',
            'direct': 'plain clauses: polarity counted without the reference semantics'}


def chunks(tier):
    return [('t', k) for k in range(len(T))] + [('subj', n) for n in (1, 2, 3, 4, 5, 6)] + [('direct', 0)] + [('pairs', k) for k in range(16)]


def negate(items, names, after=False, double=False):
    out = []
    for it in items:
        neg = [('not' + it[0], 'not', 'ADV', 'NEG', it[0])] if it[0] in names else []
        if double and neg:
            neg = neg + [('nt' + it[0], 'never', 'ADV', 'NEG', it[0])]
        out += ([it] + neg) if after else (neg + [it])
    return out


def subsets(names):
    for n in range(len(names) + 1):
        yield from itertools.combinations(names, n)


def run(chunk, ctx):
    if chunk[0] == 't':
        items = T[chunk[1]]
        names = [i[0] for i in items]
        for sub in subsets(names):
            for after, dbl in ((False, False), (True, False), (False, True)):
                case(ctx, S(*negate(items, sub, after, dbl)))
            aux = [('aux', 'do', 'MAT', 'AUX', 'v')] if 'v' in names else []
            case(ctx, S(*negate(aux + items, sub)))
    elif chunk[0] == 'subj':
        n = chunk[1]
        for form in itertools.product(('AND', 'OR'), repeat=n - 1):
            items = group('SUBJ', form, 'v', False, 's') + [('v', 'like', 'VERB', 'ROOT', None), ('o', 'tea', 'NOUN', 'OBJ', 'v')]
            for sub in subsets([i[0] for i in items]):
                got = case(ctx, S(*negate(items, sub)))
                if got is None:
                    continue
                negs = [('s%d' % i) in sub for i in range(n)]
                want = not (all(negs) ^ ('v' in sub) ^ ('o' in sub))
                pol = {p[2] for p in got if p[0] == 'NCL'}
                if pol != {want}:
                    ctx.fail({'sample': S(*negate(items, sub))}, 'the passive form has polarity %r' % pol)
    elif chunk[0] == 'direct':
        for sub in subsets(['s', 'v', 'o']):
            for words in itertools.product(('cat', 'dog'), ('see', 'eat'), ('tea', 'key')):
                items = [('s', words[0], 'NOUN', 'SUBJ', 'v'), ('v', words[1], 'VERB', 'ROOT', None), ('o', words[2], 'NOUN', 'OBJ', 'v')]
                sample = S(*negate(items, sub))
                a = len(sub) % 2 == 0
                from .c18 import direct
                direct(ctx, sample, [('NTN', words, a), ('NCL', (words[2], 'be', semfix.REF.participle(words[1])), a)])
        for sub in subsets(['s', 'v', 'p']):
            items = [('s', 'cat', 'NOUN', 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('p', 'tall', 'ADJ', 'PROP', 'v')]
            from .c18 import direct
            direct(ctx, S(*negate(items, sub)), [('NCA', ('cat', 'be', 'tall'), len(sub) % 2 == 0)])
    else:
        # two clauses side by side: negation in one does not reach the other
        for i, j in itertools.product(range(len(T)), repeat=2):
            if (i + j) % 16 != chunk[1] or i == j:
                continue
            a = [('a' + x[0], x[1], x[2], x[3], x[4] and 'a' + x[4]) for x in T[i]]
            rootname = [x[0] for x in a if x[3] == 'ROOT'][0]
            b = [('b' + x[0], x[1], x[2], 'SPLIT' if x[3] == 'ROOT' else x[3], 'b' + x[4] if x[4] else rootname) for x in T[j]]
            for sub in subsets([x[0] for x in a]):
                if len(sub) <= 2:
                    case(ctx, S(*negate(a + b, sub)))


def replay(c):
    from .c18 import replay as r
    return r(c)
