"""Pronouns and passives: every pronoun, clause shape and agent."""
import itertools

from .. import semcheck, semfix
from ..semcheck import S, case

PROP = 'C21'
TITLE = 'Pronouns and passives'
RULE = 'extracted predicates equal those of the reference semantics; key cases are also written down directly; non-trivial: at least one predicate'
ASSUMES = ['sentences are given as labelled trees']

REL = ['that', 'which', 'who']
REFL = ['myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself', 'themselves', 'oneself']
OBJ = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
OTHER = ['I', 'he', 'it', 'this', 'what', 'everybody', 'whom']
ALL = REL + REFL + list(OBJ) + OTHER


def setup():
    semfix.setup()


def BOUNDS(tier):
    return {'disguises': 'every case also in one of %d garbs (far from the start, spread out, capitals, equal words, below another clause, backwards, negated, coordinated), rotating' % semcheck.NB_DISGUISES,
            'pronouns': '%d pronouns, in 3 letter cases, as subject and object' % len(ALL),
            'relative clauses': 'noun classes x subject x object x property x marker x label of the clause x position of the noun',
            'reflexives': 'as object, as subject of a clause object, with and without a subject, in nested clauses, tagged as noun',
            'passives': 'participles and plain adjectives x by/other markers x agents of every class x property or complement x particles'}


def chunks(tier):
    return [('rel', k) for k in range(8)] + [('refl', k) for k in range(4)] + [('passive', k) for k in range(4)] + [('objp', 0), ('direct', 0)]


def cases(w):
    return [w, w.capitalize(), w.upper()]


def relative():
    for pr, ntag, mark, lab in itertools.product([p for w in REL for p in cases(w)] + ['you', 'himself', 'what', None], ('NOUN', 'PROPN', 'PRON', 'VERB', 'ADJ'),
                                                 (None, 'MARK', 'CMARK', 'IMARK'), ('CPL', 'OBJ', 'AND')):
        for role, obj, prop, ptag in itertools.product(('SUBJ', 'OBJ'), (None, 'tea', 'him', 'that'), (None, ('big', 'ADJ'), ('painted', 'ADJ')), ('PRON', 'NOUN')):
            if obj and role == 'OBJ':
                o = ('o', 'I', 'PRON', 'SUBJ', 'w')
            else:
                o = obj and ('o', obj, 'PRON' if obj in ('him', 'that') else 'NOUN', 'OBJ', 'w')
            yield S(('n', 'cat', ntag, 'ROOT', None), pr and ('r', pr, ptag, role, 'w'), mark and ('m', 'as', 'CONJ', mark, 'w'),
                    ('w', 'eat' if not prop else 'is', 'VERB', lab, 'n'), o, prop and ('p', prop[0], prop[1], 'PROP', 'w'))


def relative2():
    # the noun inside a larger clause, the clause with coordinated verbs
    for pr, slot, conj, role in itertools.product(REL + ['you', None], ('SUBJ', 'OBJ', 'IOBJ', 'PROP'), (None, 'AND', 'OR'), ('SUBJ', 'OBJ')):
        for own in (0, 1):
            s = () if slot == 'SUBJ' else (('s', 'I', 'PRON', 'SUBJ', 'v'),)
            n = [('n', 'dog', 'NOUN', slot, 'v'), pr and ('r', pr, 'PRON', role, 'w'), own and ('y', 'we', 'PRON', 'SUBJ' if role == 'OBJ' else 'OBJ', 'w'), ('w', 'like', 'VERB', 'CPL', 'n'),
                 conj and ('w2', 'see', 'VERB', conj, 'w')]
            v = ('v', 'make', 'VERB', 'ROOT', None)
            yield S(*(n + [v, ('o', 'tea', 'NOUN', 'OBJ', 'v')] if slot == 'SUBJ' else list(s) + [v] + n))


def reflexive(k):
    for w in REFL + ['him', 'me', 'that']:
        for c, tag in itertools.product(cases(w), ('PRON', 'NOUN', 'ADJ')):
            for stag, conj, obj in itertools.product((None, 'NOUN', 'PROPN', 'ADJ'), (None, 'AND'), (None, 'tea')):
                subj = [stag and ('s', 'cat', stag, 'SUBJ', 'v'), conj and stag and ('t', 'dog', 'NOUN', conj, 's')]
                if k == 0:
                    yield S(*subj, ('v', 'see', 'VERB', 'ROOT', None), ('o', c, tag, 'OBJ', 'v'), obj and ('p', obj, 'NOUN', 'AND', 'o'))
                elif k == 1:
                    for vtag, lab in itertools.product(('VERB', 'NOUN'), ('OBJ', 'CPL', 'AND')):
                        yield S(*subj, ('v', 'find', vtag, 'ROOT', None), ('r', c, tag, 'SUBJ', 'w'), ('w', 'sing', 'VERB', lab, 'v'), obj and ('o', obj, 'NOUN', 'OBJ', 'w'))
                elif k == 2:
                    yield S(*subj, ('v', 'find', 'VERB', 'ROOT', None), ('r', c, tag, 'SUBJ', 'w'), ('w', 'be', 'VERB', 'OBJ', 'v'), ('p', 'old', 'ADJ', 'PROP', 'w'),
                            obj and ('q', 'tall', 'ADJ', 'AND', 'p'))
                else:
                    yield S(*subj, ('v', 'want', 'VERB', 'ROOT', None), ('z', 'we', 'PRON', 'SUBJ', 'w'), ('w', 'see', 'VERB', 'OBJ', 'v'), ('o', c, tag, 'OBJ', 'w'),
                            obj and ('i', 'dog', 'NOUN', 'IOBJ', 'w'))
                    yield S(*subj, ('v', 'give', 'VERB', 'ROOT', None), ('i', c, tag, 'IOBJ', 'v'), obj and ('o', obj, 'NOUN', 'OBJ', 'v'))


def passive(k):
    slot, adjtags = [('PROP', ('ADJ',)), ('CPL', ('ADJ',)), ('OBJ', ('ADJ',)), ('PROP', ('NOUN', 'VERB'))][k]
    agents = [('John', 'PROPN'), ('them', 'PRON'), ('cat', 'NOUN'), ('34', 'NUM'), ('a.com', 'SYM'), ('walk', 'VERB'), ('hot', 'ADJ')]
    for a, mk, mlab, ag, part, stag, at, conj in itertools.product(('painted', 'eaten', 'seen', 'stopped', 'carried', 'big', 'liked'), ('by', 'By', 'for', None), ('MARK', 'CMARK', 'IMARK'),
                                                                agents, (None, 'up'), ('NOUN', 'PRON', 'ADJ'), adjtags, (None, 'AND')):
        if mk != 'by' and (mlab != 'MARK' or conj):
            continue
        tail = [part and ('q', part, 'FRAG', 'PART', 'a'), mk and ('m', mk, 'PREP', mlab, 'g'), ('g', ag[0], ag[1], 'CPL', 'a'), conj and ('h', 'dog', 'NOUN', conj, 'g')]
        if slot == 'CPL':
            yield S(('n', 'tea', stag, 'ROOT', None), ('a', a, at, 'CPL', 'n'), *tail)
        else:
            yield S(('n', 'tea', stag, 'SUBJ', 'v'), ('v', 'was', 'VERB', 'ROOT', None), ('a', a, at, slot, 'v'), *tail)


def objp():
    for w in ALL:
        for c in cases(w):
            for tag, slot in itertools.product(('PRON', 'NOUN', 'DET', 'PROPN'), ('SUBJ', 'OBJ', 'IOBJ', 'PROP')):
                s = [] if slot == 'SUBJ' else [('s', 'dog', 'NOUN', 'SUBJ', 'v')]
                yield S(*s, *([('x', c, tag, slot, 'v')] if slot == 'SUBJ' else []), ('v', 'see' if slot != 'PROP' else 'be', 'VERB', 'ROOT', None),
                        *([('x', c, tag, slot, 'v')] if slot != 'SUBJ' else []))


def direct(ctx):
    from .c18 import direct as d
    P = semfix.REF.participle
    for w in REL:
        d(ctx, [('cat', 'NOUN', 'ROOT', -1), (w, 'PRON', 'SUBJ', 2), ('eat', 'VERB', 'CPL', 0), ('tea', 'NOUN', 'OBJ', 2)],
          [('NTN', ('cat', 'eat', 'tea'), True), ('NCL', ('tea', 'be', P('eat')), True)])
        d(ctx, [('tea', 'NOUN', 'ROOT', -1), (w, 'PRON', 'OBJ', 3), ('dog', 'NOUN', 'SUBJ', 3), ('like', 'VERB', 'CPL', 0)],
          [('NTN', ('dog', 'like', 'tea'), True), ('NCL', ('tea', 'be', P('like')), True)])
    d(ctx, [('tea', 'NOUN', 'ROOT', -1), ('dog', 'NOUN', 'SUBJ', 2), ('like', 'VERB', 'CPL', 0)],
      [('NTN', ('dog', 'like', 'tea'), True), ('NCL', ('tea', 'be', P('like')), True)])
    for w in REFL:
        d(ctx, [('cat', 'NOUN', 'SUBJ', 1), ('see', 'VERB', 'ROOT', -1), (w, 'PRON', 'OBJ', 1)], [('NTN', ('cat', 'see', 'cat'), True), ('NCL', ('cat', 'be', P('see')), True)])
        d(ctx, [('cat', 'NOUN', 'SUBJ', 1), ('find', 'VERB', 'ROOT', -1), (w, 'PRON', 'SUBJ', 3), ('sing', 'VERB', 'OBJ', 1)], [('NTNI', ('cat', 'find', 'cat', 'sing'), True)])
    for w, v in OBJ.items():
        d(ctx, [('cat', 'NOUN', 'SUBJ', 1), ('see', 'VERB', 'ROOT', -1), (w, 'PRON', 'OBJ', 1)], [('NTO', ('cat', 'see', v), True), ('OCL', (v, 'be', P('see')), True)])
    d(ctx, [('tea', 'NOUN', 'SUBJ', 1), ('is', 'VERB', 'ROOT', -1), ('painted', 'ADJ', 'PROP', 1), ('by', 'PREP', 'MARK', 4), ('cat', 'NOUN', 'CPL', 2)],
      [('NCL', ('tea', 'be', 'painted'), True), ('NTN', ('cat', 'paint', 'tea'), True)])


def run(chunk, ctx):
    k = chunk[0]
    if k == 'direct':
        return direct(ctx)
    if k == 'rel':
        for num, s in enumerate(itertools.chain(relative(), relative2())):
            if num % 8 == chunk[1]:
                case(ctx, s)
        return
    for s in {'refl': lambda: reflexive(chunk[1]), 'passive': lambda: passive(chunk[1]), 'objp': objp}[k]():
        case(ctx, s)


def replay(c):
    from .c18 import replay as r
    return r(c)
