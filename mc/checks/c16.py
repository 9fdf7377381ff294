"""Shape and grounding of predicates: every small labelled tree, plus clause trees."""
import itertools
import re

from .. import semcheck, semfix
from ..core import exc_text
from . import c17, c18, c19, c20, c21

PROP = 'C16'
TITLE = 'Predicates are well formed and grounded'
RULE = 'every predicate matches a documented shape, only the first verb carries negation, every word comes from the normalised words of ' \
       'the sentence; non-trivial: at least one predicate'
ASSUMES = ['sentences are given as labelled trees, which is what parsing produces']

NOUN = '[NOPSU]'
SHAPE = re.compile('%s(I|T%s|R%s|C([AL]|%s)|T%s(I|T%s|C([AL]|%s)))' % ((NOUN,) * 7))
SUBJ_FORMS = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
TAGKIND = {'A': 'ADJ', 'L': 'ADJ', 'I': 'VERB', 'R': 'VERB', 'T': 'VERB'}


def setup():
    semfix.setup()


def BOUNDS(tier):
    return {'trees': 'all trees of 1..3 words x %s' % ('16 labels x 5 parts of speech, plus 22 labels x 9 parts of speech for 2 words' if tier == 'quick' else '22 labels x 9 parts of speech; 4 words x 8 labels x 3 parts of speech'),
            'clauses': 'the clause families of C17 to C21 and every subset of negated words in the %d templates of C19' % len(c19.T),
            'disguises': 'every case also in one of %d garbs (far from the start, spread out, capitals, equal words, below another clause, backwards, negated, coordinated), rotating' % semcheck.NB_DISGUISES,
            'words': '4 words per part of speech (irregular, inflected, pronouns, markers)',
            'words of the lexicon': 'each fixture word as subject, verb, object, adjective'}


DEPS16 = ['AND', 'AUX', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'IOBJ', 'IPROP', 'MARK', 'NEG', 'OBJ', 'OR', 'PART', 'PROP', 'SUBJ']
TAGS9 = ['NOUN', 'VERB', 'ADJ', 'PRON', 'PROPN', 'NUM', 'SYM', 'ADV', 'PREP']


def chunks(tier):
    out = [('t', 1, 'all', 'nine', 0, 1), ('t', 2, 'all', 'nine', 0, 1), ('lex', 0), ('lex', 1), ('lex', 2), ('lex', 3)]
    out += [('neg', k) for k in range(len(c19.T))] + [('shape', f, k) for f in FAMILIES for k in range(4)]
    if tier == 'quick':
        out += [('t', 3, 'd16', 'five', k, 48) for k in range(48)]
    else:
        out += [('t', 3, 'all', 'nine', k, 128) for k in range(128)]
        out += [('t', 4, 'eight', 'three', k, 128) for k in range(128)]
    return out


FAMILIES = {'clause objects': lambda: (s for k in range(6) for s in c17.clauses(k)), 'nested': c17.deep, 'other': c17.other,
            'coordinated clauses': c18.clause_objs, 'agents': c18.agents, 'adjectives': c18.adjs, 'mixed': c18.mixed_tags,
            'names': lambda: (s for n in range(1, 7) for s in c20.names(n)), 'joined names': c20.mix, 'particles': lambda: itertools.chain(c20.particles('VERB'), c20.particles('ADJ')),
            'relative clauses': c21.relative2, 'passives': lambda: (s for k in range(4) for s in c21.passive(k))}
SETS = {'all': semcheck.DEPS, 'd16': DEPS16, 'eight': ['SUBJ', 'OBJ', 'CPL', 'PROP', 'AND', 'MARK', 'NEG', 'IPROP'],
        'nine': TAGS9, 'five': ['NOUN', 'VERB', 'ADJ', 'PRON', 'ADV'], 'three': ['NOUN', 'VERB', 'ADJ']}
_FORMS = {}


def forms(token, part_of_name=False):
    """Everything the normalisation of one word can give"""
    if token not in _FORMS:
        ref = semfix.REF
        low = token.lower()
        std = ref.standardize(low)
        out = {low, std}
        for tag in ('NOUN', 'VERB', 'ADJ', 'PRON', 'PROPN', 'NUM', 'SYM', 'ADV', 'PREP'):
            for w in (low, std):
                lemma = ref.lemmatize(w, tag)[0]
                out.add(lemma)
                out.add(ref.participle(lemma))
        out |= {SUBJ_FORMS[x] for x in list(out) if x in SUBJ_FORMS}
        _FORMS[token] = out
    return _FORMS[token]


def judge(sample, ctx):
    ok, sts = ctx.call(lambda: list(semfix.LP.test_sample(sample)))
    if not ok:
        return exc_text(sts), None
    vocab = set()
    for t in sample:
        vocab |= forms(t[0])
        if t[2] == 'FLAT':  # a name is normalised as a whole
            chain, k = t[0], t[3]
            while True:
                chain = sample[k][0] + ' ' + chain
                if sample[k][2] != 'FLAT':
                    break
                k = sample[k][3]
            for f in forms(chain):
                vocab |= set(f.split(' '))
    for st in sts:
        args = list(st)
        code = ''.join(a.code for a in args)
        if st.code != code or not SHAPE.fullmatch(code) or len(st) != len(args) or not 2 <= len(args) <= 5:
            return 'predicate %s has no documented shape' % st, None
        for k, a in enumerate(args):
            if not a.is_affirmative and k != 1:
                return 'predicate %s has a negation elsewhere than on its first verb' % st, None
            if a.tag != TAGKIND.get(a.code, 'VERB' if a.code == 'C' else 'NOUN') and a.code != 'C':
                return 'argument %s has part of speech %s' % (a, a.tag), None
            words = a.word.split(' ')
            if a.code == 'C' and words[0] == 'be':
                words = words[1:]
            for w in words:
                if w not in vocab:
                    return '%r of predicate %s comes from no word of the sentence' % (w, st), None
    return None, semfix.view(sts)


def case(ctx, sample):
    one(ctx, sample)
    for d in semcheck.disguises(sample):
        one(ctx, d)


def one(ctx, sample):
    msg, got = judge(sample, ctx)
    if msg:
        ctx.fail({'sample': sample}, msg)
    else:
        ctx.done(tuple(sorted(got)), bool(got), {'sample': [' '.join(map(str, t)) for t in sample], 'predicates': got[:3]})


def run(chunk, ctx):
    if chunk[0] == 'neg':
        for sub in c19.subsets([i[0] for i in c19.T[chunk[1]]]):
            for after in (False, True):
                case(ctx, semcheck.S(*c19.negate(c19.T[chunk[1]], sub, after)))
    elif chunk[0] == 'shape':
        for num, s in enumerate(FAMILIES[chunk[1]]()):
            if num % 4 == chunk[2]:
                case(ctx, s)
    elif chunk[0] == 't':
        for s in semcheck.trees(chunk[1], SETS[chunk[2]], SETS[chunk[3]], chunk[4], chunk[5]):
            case(ctx, s)
    else:
        for num, w in enumerate(sorted(semfix.UNI)):
            if num % 4 != chunk[1]:
                continue
            for v in {w, w.capitalize(), w + 's', w + 'ed', w + 'ing', w + 'er'}:
                for stag, vtag, otag in itertools.product(('NOUN', 'PRON', 'PROPN'), ('VERB',), ('NOUN', 'ADJ', 'VERB')):
                    S = semcheck.S
                    case(ctx, S(('s', v, stag, 'SUBJ', 'v'), ('v', 'see', 'VERB', 'ROOT', None), ('o', 'tea', otag, 'OBJ', 'v')))
                    case(ctx, S(('s', 'cat', stag, 'SUBJ', 'v'), ('v', v, 'VERB', 'ROOT', None), ('o', 'tea', otag, 'OBJ', 'v')))
                    case(ctx, S(('a', v, otag, 'CPL', 's'), ('s', 'cat', stag, 'SUBJ', 'v'), ('v', 'is', 'VERB', 'ROOT', None), ('o', v, otag, 'PROP', 'v')))


def replay(c):
    from ..core import Ctx
    return judge([tuple(t) for t in c['sample']], Ctx())[0]
