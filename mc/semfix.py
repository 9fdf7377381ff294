"""Fixture for predicate extraction: a small language model in the scratch data dir, the real LogicPipeline on top of it
and the reference semantics over the same tables."""
from . import boot
from .reflm import RefLM, RefLemmatizer, ref_past_participle, ref_standard
from .refsem import RefSem

# word -> (count, probability)
UNI = {}
for _w in ('cat dog bird fish tea car key box hat cup i you he she we they it me him her us them that which who eat see like '
           'want paint give be have get do make call help give look up out off red big small old tall painted called liked '
           'by for to of in than but and or not john smith london paris bob new york coffee table garden chair house door '
           'myself himself themselves hot market stock price think find seem become run sing walk carry carried stop stopped '
           'loved love hate colour color nice there many two').split():
    UNI[_w] = (100, 0.01)
BI = {'i eat': (10, 0.001), 'you see': (10, 0.001)}

LP = REF = LM = None


def table():
    t = dict(UNI)
    t.update(BI)
    return t


def load_txt_dict(name):
    out = {}
    with open(str(boot.REAL_DATA / 'english' / name), encoding='utf-8') as f:
        for line in f:
            k, v = line.strip().split('\t')
            out[k] = v
    return out


def load_txt_set(name):
    with open(str(boot.REAL_DATA / 'english' / name), encoding='utf-8') as f:
        return {line.strip() for line in f}


def reference(tab):
    lm = RefLM(tab)
    adjs, nouns = load_txt_set('adjectives.txt'), load_txt_set('nouns.txt')
    pps = load_txt_dict('irregular_past_participles.txt')
    lemma_pp = {}
    for k, v in pps.items():
        lemma_pp[v] = k
    lem = RefLemmatizer(lm, adjs, load_txt_dict('irregular_preterits.txt'), pps, load_txt_dict('irregular_plurals.txt'),
                        load_txt_dict('irregular_comparatives.txt'), load_txt_dict('irregular_superlatives.txt'))
    part = lambda l: sorted(ref_past_participle(l, lm, lemma_pp))[0]
    std = lambda w: ref_standard(w, lm)
    return RefSem(lem, std, part, adjs, nouns)


def write_tables():
    boot.write_ngrams(1, [(w, c, p) for w, (c, p) in UNI.items()])
    boot.write_ngrams(2, [(w, c, p) for w, (c, p) in BI.items()])


def setup():
    global LP, REF, LM
    if LP is not None:
        return
    boot.boot()
    write_tables()
    from scrappybara.langmodel.language_model import LanguageModel
    from scrappybara.pipeline.logic_pipeline import LogicPipeline
    LM = LanguageModel(1, 1)
    LP = LogicPipeline(LM)
    REF = reference(table())


def view(stuples):
    """What a user sees of the predicates: (code, words, affirmative); negation belongs to the first verb only"""
    out = []
    for st in stuples:
        args = list(st)
        aff = args[1].is_affirmative
        if not all(a.is_affirmative for k, a in enumerate(args) if k != 1):
            aff = 'negation misplaced'
        out.append((st.code, tuple(a.word for a in args), aff))
    return out


def extract(sample):
    return view(LP.test_sample(sample))
