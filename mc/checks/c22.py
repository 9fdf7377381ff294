"""Lemmas: every inflected form of all short stems, every set of known candidate stems and every ranking of them."""
import itertools

from .. import boot, lmfix, semfix
from ..core import digest, exc_text
from ..reflm import FULL, PREFIXES, RefLM, RefLemmatizer, MODALS

PROP = 'C22'
TITLE = 'Lemmas'
RULE = 'lemma and suffix equal those of the rule table evaluated over the same n-gram table; non-trivial: the form has a ' \
       'suffix that is removed'
ASSUMES = ['the language model is the real one, loaded from n-gram files written by the harness',
           'equally likely candidates are not judged']

TAGS = LEMCLS = TABLES = None
TAGNAMES = ['NOUN', 'VERB', 'ADJ', 'ADV', 'PROPN', 'PRON']
ENDINGS = ['', 's', 'es', 'ies', 'ves', 'ieves', 'men', 'a', 'i', 'ss', 'ed', 'ied', 'icked', 'ing', 'icking', 'icks', 'er', 'est',
           'ier', 'iest', 'ier', 'is', 'us', 'eed', 'ying', 'ely']
ENDINGS = list(dict.fromkeys(ENDINGS))
ODD = ["'s", "'", "'m", "'re", "'ll", '1980s', '3', '-', '--', 'a-s', '-ed', 'x-ing', 'a-b-cs', 'é', 'cafés', 'naïves', 's', 'ed', 'ing',
       'es', 'er', 'est', 'a', 'i', 'men', 'ies', 'ves', 'ied', 'x', 'need', 'needs', 'needed', 'acumen', 'being', 'doing', 'has',
       're-', 're-s', 're-eds', 'unss', 'kisses', 'kiss', 'gas', 'gases', 'bus', 'buses', 'hot dogs', 'under', 'clever', 'bitter', 'inner', 'former', 'proper',
       'richest', 'free', 'freer', 'freest', 'freed', 'freeing', 'dyeing', 'dyed', 'singed', 'singeing', 'tied', 'ties', 'lies', 'tying', 'Straße', 'straßes', 'STRAẞES', 'İs', 'ΣΑΣ', 'ﬁrs', 'ǅs', 'Naïves']

# ordinary words that look inflected, and beginnings that are no prefix of the table
LOOKALIKE = (
    'embed imbed shed shred bleed breed feed speed seed weed heed exceed proceed succeed wed bed sled red reed deed creed greed steed indeed sacred naked wicked '
    'wretched rugged crooked aged beloved learned hundred kindred hatred bring sing ring king thing spring string swing cling fling sting wing sling wring bling '
    'ceiling wedding building morning evening nothing something anything everything during sibling darling sterling pudding herring shilling duckling farthing '
    'interesting amazing boring charming willing news lens series species mathematics physics politics economics ethics gas bus plus focus virus campus bonus census '
    'status genus corpus minus versus thus always perhaps besides yes this his its across alas atlas bias canvas christmas texas chaos thermos basis crisis thesis '
    'oasis analysis iris tennis penis pelvis glass class pass mess less access process success address mass boss loss cross dress press stress chess guess bless kiss '
    'miss dismiss discuss assess possess princess hostess omen abdomen specimen regimen hymen stamen semen women amen yemen cyclamen ramen ten men children oxen '
    'kitchen chicken garden open listen happen gotten often golden wooden data media agenda opera camera drama panda sofa pizza banana umbrella era idea area tuna '
    'formula antenna larva criteria phenomena bacteria taxi ski alibi bikini kiwi safari wifi alumni fungi cacti stimuli radii foci hi chili zombie cookie movie pie tie '
    'lie die necktie series caries rabies eyes shoes toes heroes potatoes tomatoes echoes buses quizzes knives leaves lives calves halves elves selves shelves loaves '
    'gloves waves caves doves curves nerves olives slaves moves loves beer deer cheer engineer career pioneer volunteer steer sheer mere here there were water paper '
    'never ever over under other mother father brother sister winter summer river silver number order offer differ suffer prefer refer answer enter matter letter '
    'better later former eager meager proper super upper outer inner lower tower power flower corner dinner manner banner modest honest forest interest harvest '
    'request suggest protest contest arrest rest test best west nest guest quest chest priest pest invest digest conquest earnest manifest latest greatest oldest '
    'picnic panic mimic traffic picnicking mimicked trafficking frolicked politicking bivouacked kicked ticked licked picked clicked sticks kicks tricks bricks '
    'being having doing going seeing fleeing agreeing dyeing tying lying dying vying skiing taxiing has does goes was is are am were been had did done gone '
    'buzzing fizzes quizzed whizzed gassed bussed busses gases bused biases focuses focussed focused cancelled canceled travelling traveling programming programed '
    'wolf thief wife life knife calf half shelf leaf loaf beef chief belief proof roof cliff staff stuff woman man human german roman ottoman norman talisman '
    'co-op re-elect un-american mis-sell x-ray e-mail well-known mother-in-law runner-up passers-by ex-wives half-lives non-stop').split()
NOPREFIX = ('over under pre non de en anti super inter mid fore up a be im in il ir semi trans auto bi down ex post pro tri with under- r u m s c o g d ou su mi').split()


def setup():
    global TAGS, LEMCLS, TABLES
    if LEMCLS is not None:
        return
    boot.boot()
    from scrappybara.normalization.lemmatizer import Lemmatizer
    from scrappybara.syntax.tags import Tag
    LEMCLS = Lemmatizer
    TAGS = {t.name: t for t in Tag}
    pps = semfix.load_txt_dict('irregular_past_participles.txt')
    TABLES = dict(adjs=semfix.load_txt_set('adjectives.txt'), pret=semfix.load_txt_dict('irregular_preterits.txt'), pps=pps,
                  plur=semfix.load_txt_dict('irregular_plurals.txt'), comp=semfix.load_txt_dict('irregular_comparatives.txt'),
                  sup=semfix.load_txt_dict('irregular_superlatives.txt'), rev={v: k for k, v in pps.items()})


def lemmatizer(table):
    t = TABLES
    return LEMCLS(lmfix.load(table), set(t['adjs']), *[dict(t[k]) for k in ('pret', 'pps', 'plur', 'comp', 'sup', 'rev')])


def ref(table, lm=None):
    t = TABLES
    return RefLemmatizer(lm or RefLM(table), t['adjs'], t['pret'], t['pps'], t['plur'], t['comp'], t['sup'])


class Spy(RefLM):
    """records what is asked; knows nothing, so every rule of the path is reached"""

    def __init__(self):
        super().__init__({})
        self.asked = []

    def has(self, g, n=1):
        self.asked.append([g])
        return False

    def best(self, *gs):
        self.asked.append(list(gs))
        return None


def queries(word, tag):
    spy = Spy()
    ref(None, spy)(word, tag)
    return spy.asked


def rankings(items):
    """every subset of items in every order, as {item: rank}"""
    for k in range(len(items) + 1):
        for perm in itertools.permutations(items, k):
            yield {g: r + 1 for r, g in enumerate(perm)}


def configs(word, tag, tier):
    """n-gram tables (as {n-gram: rank}) that distinguish every outcome for this word"""
    asked = queries(word, tag)
    uni = [list(dict.fromkeys(q)) for q in asked if ' ' not in q[0]]
    bi = [q for q in asked if ' ' in q[0]] if tag == 'VERB' else []  # what the other words follow decides nothing
    out = []
    for combo in itertools.product(*[list(rankings(u)) for u in uni]):
        if len(uni) > 1 and sum(len(c) for c in combo) > 4:
            continue
        d = {}
        for c in combo:
            d.update(c)
        out.append(d)
    full = {g: r + 1 for u in uni for r, g in enumerate(u)}
    back = {g: r + 1 for u in uni for r, g in enumerate(reversed(u))}
    for q in bi:
        for g in q:
            for base in ({}, full, back):
                out.append(dict(base, **{g: 1}))
        n = len(q)
        pairs = [(a, b) for a in range(n) for b in range(n) if a != b and q[a].split()[-1] != q[b].split()[-1]]
        if tier == 'quick' and len(pairs) > 12:
            pairs = [(a, b) for a, b in pairs if (a + b) % (n // 2) in (0, 3)]
        for a, b in pairs:
            out.append(dict(full, **{q[a]: 2, q[b]: 1}))
    return out


def table_of(cfg, base=0.0):
    # bigrams are less likely than unigrams, ranks are never equal
    return {g: (r, (0.0001 if ' ' in g else 0.01) * (r + i * 1e-7)) for i, (g, r) in enumerate(cfg.items())}


REPL = ['', 'e', 'y', 'ie', 'f', 'fe', 've', 'on', 'us', 'um', 'man', 'is', 'ic', 'ief', 'ix', 'o', 'a', 'eau']
CUTS = ['s', 'es', 'ies', 'ves', 'ieves', 'men', 'a', 'i', 'd', 'ed', 'ied', 'icked', 'cked', 'ing', 'icking', 'cking', 'icks', 'cks', 'r', 'er', 'st', 'est', 'ier', 'iest', 'n', 'en',
        'ae', 'ice', 'ly', 'y', "'s", 'ss', 'us', 'is', 'ces', 'x']
BEFORE = ['to', 'he', 'the', 'a', 'must', 'will', 'shall', 'it', 'she', 'not', 'ought', 'n\'t', 'do', 'did', 'who']


def decoys(word):
    """stems which rules other than those of the table would give"""
    w = word.lower()
    bases = {w} | {w[len(p):] for p in PREFIXES + NOPREFIX if w.startswith(p)}
    if '-' in w:
        bases.add(w.split('-')[-1])
    out = []
    for b in sorted(bases):
        for c in CUTS:
            if b.endswith(c) and len(b) > len(c):
                st = b[:-len(c)]
                out += [st + r for r in REPL] + [st + st[-1], st + st[-1] + 'e']
                if len(st) > 1:
                    out += [st[:-1], st[:-1] + 'y', st[:-1] + 'e']
    out += [b + e for b in sorted(bases) for e in ('', 'e', 'es', 's')]
    return [g for g in dict.fromkeys(out) if g and g == ' '.join(g.split())]


def decoy_tables(items, tag):
    """tables in which the stems of all rules are known: all of them, every other one, in two orders each"""
    grams = []
    for w, t in items:
        if t == tag:
            d = decoys(w)
            grams += d
            if len(items) < 4000:
                grams += [b + ' ' + g for g in d for b in (BEFORE if tag == 'VERB' else ('the', 'a', 'i', 'more')) if b not in d]
    grams = [g for g in dict.fromkeys(grams) if len(g.split()) < 3]
    for seed in range(4):
        h = {g: digest((seed, g)) for g in grams}
        yield {g: (h[g] % 50 + 1, (0.0001 + (h[g] >> 12) / 2 ** 54) * (0.5 if ' ' in g else 1.0)) for g in grams if seed < 2 or h[g] % 3}


def starts(tier):
    alpha = 'bney' if tier == 'quick' else 'bneya'
    out = [''.join(p) for n in (1, 2, 3) for p in itertools.product(alpha, repeat=n)]
    if tier != 'quick':
        out += [''.join(p) for p in itertools.product('bnea', repeat=4)]
    out += ['bann', 'babb', 'nebb', 'yenn', 'bbnn', 'bannn', 'enbe', 'eney', 'anaba', 'picn', 'criteri', 'anaann', 'rebab', 'rebann', 'unbab', 'misbeb', 'disneb',
            'outban', 'cobab', 'subben', 'grandbab', 'rerebab', 're-bab', 'x-bab', 'x-bann', 're-un-bab', 'coney', 'Bab', 'BAN', 're', 'co', 'un', 'mis']
    # every letter in the places the rules look at: doubled, last, before the last, first; long words
    letters = 'abcdefghijklmnopqrstuvwxyz'
    for a in letters:
        out += ['ba' + a + a, 'b' + a + 'tt', 'pro' + a, 'sti' + a, 'mar' + a, a + 'um', 'pl' + a + 'n', 'do' + a + 'e', a]
        if tier != 'quick':
            out += ['co' + a + b for b in letters] + ['tr' + a + b + b for b in letters]
    for p in PREFIXES:
        out += [p + 'bab', p + 'bann', p + 'part', p + '-mak', 'x' + p + 'bab', p + p + 'cal']
    out += ['counterrevolutionar', 'misunderstandabl', 'abcdefghijklmnopqrstuvwxyzann', 'x' * 45]
    return list(dict.fromkeys(out))


def words(tier):
    for s in starts(tier):
        for e in ENDINGS:
            yield s + e


def groups(items):
    """groups of (word, tag) whose questions to the language model do not overlap"""
    out = []
    for word, tag in items:
        q = {g for a in queries(word, tag) for g in a}
        for seen, members in out[-60:]:
            if len(members) < 60 and not (seen & q):
                seen |= q
                members.append((word, tag))
                break
        else:
            out.append((set(q), [(word, tag)]))
    return [m for _, m in out]


def BOUNDS(tier):
    return {'forms': '%d starts (all strings of up to %d letters over vowel, consonants, y, e and longer ones) x %d endings' % (
                len(starts(tier)), 3 if tier == 'quick' else 4, len(ENDINGS)),
            'tags': 'noun, verb, adjective for the forms; all tags for words with an entry of their own',
            'tables': 'every subset and ranking of the candidate stems, with and without prefix; every bigram that decides, every pair of rival bigrams%s' % (
                ' (a fifth of the pairs for verbs)' if tier == 'quick' else ''),
            'decoys': 'every form and word above also in 4 tables in which the stems of %d other endings and replacements are known, and seen after %d words that are neither pronouns nor modals' % (len(CUTS) * len(REPL), len(BEFORE)),
            'English words': '%d words that look inflected without being so, bare and with -s; every shipped noun (and its -s form) and adjective (and its -er and -est forms); every irregular form after %d beginnings that are no prefixes; no stem known, every stem known' % (len(LOOKALIKE), len(NOPREFIX)),
            'irregular': 'every entry of the shipped tables, bare, with each prefix, with a hyphen, in capitals, under every tag'}


def chunks(tier):
    ws = list(words(tier))
    step = len(ws) // (32 if tier == 'quick' else 128) + 1
    out = [('odd', t) for t in TAGNAMES] + [('irregular', t) for t in TAGNAMES] + [('english', t) for t in TAGNAMES]
    out += [('forms', tier, k, k + step) for k in range(0, len(ws), step)]
    return out


def among_decoys(items, ctx):
    for tag in TAGNAMES:
        mine = [(w, t) for w, t in items if t == tag]
        if not mine:
            continue
        for k, table in enumerate(decoy_tables(mine, tag)):
            lem, rf = lemmatizer(table), ref(table)
            for w, t in mine + (mine[::-1] if k == 0 else []):  # every word is asked about again later
                judge(lem, rf, w, t, None, ctx, lambda w=w: {g: list(v) for g, v in table.items() if g in decoys(w) or ' ' in g and g.split(' ', 1)[1] in decoys(w)})


def judge(lem, rf, word, tag, cfg, ctx, entries=None):
    ok, r = ctx.call(lem, word, TAGS[tag])
    want = rf(word, tag)
    if ok:
        try:
            lemma, suffix = r
            got = (lemma, suffix.name if suffix is not None else None)
        except Exception as e:
            got = exc_text(e)
    else:
        got = exc_text(r)
    if got != want:
        if entries is not None:
            cfg = entries()
        ctx.fail({'word': word, 'tag': tag, 'known': cfg}, 'lemma of %r (%s) is %r, expected %r when the model knows %r' % (word, tag, got, want, cfg))
        return
    ctx.done((word, tag, got), want[1] is not None, {'word': word, 'tag': tag, 'known': cfg, 'lemma': got[0]} if cfg is not None else None)


def run(chunk, ctx):
    if chunk[0] == 'forms':
        _, tier, lo, hi = chunk
        ws = list(words(tier))[lo:hi]
        items = [(w, t) for w in ws for t in ('NOUN', 'VERB', 'ADJ')]
    elif chunk[0] == 'odd':
        tier = 'quick'
        items = [(w, chunk[1]) for w in ODD + [w for _, w in FULL] + sorted({w.upper() for _, w in FULL})]
    else:
        tier = 'irr'
        ws = set()
        for k in ('pret', 'pps', 'plur', 'comp', 'sup'):
            ws |= set(TABLES[k])
        some = sorted(ws)
        items = []
        for i, w in enumerate(some):
            items += [(w, chunk[1]), (w.upper(), chunk[1]), (w.capitalize(), chunk[1])]
            items += [(p + w, chunk[1]) for p in PREFIXES] + [('x-' + w, chunk[1]), ('pre' + w, chunk[1]), ('a-b-' + w, chunk[1])]
        if chunk[0] == 'english':
            nouns, adjs = sorted(semfix.load_txt_set('nouns.txt')), sorted(TABLES['adjs'])
            ws = LOOKALIKE + [w + 's' for w in LOOKALIKE] + [p + w for w in some for p in NOPREFIX]
            ws += nouns + [w + 's' for w in nouns] + adjs + [w + e for w in adjs for e in ('er', 'est')]
            items = [(w, chunk[1]) for w in dict.fromkeys(ws)]
        empty, rf = lemmatizer({}), ref({})
        for w, t in items:
            judge(empty, rf, w, t, {}, ctx)
        # the same words when the model also knows the stems the regular rules would give
        cfg = {}
        for w, t in items:
            spy = Spy()
            RefLemmatizer(spy, set(), {}, {}, {}, {}, {})(w, t)
            for q in spy.asked:
                if t != 'VERB' and ' ' in q[0]:
                    continue
                for r, g in enumerate(dict.fromkeys(q)):
                    cfg.setdefault(g, r + 1)
        table = table_of(cfg)
        lem, rf = lemmatizer(table), ref(table)
        for w, t in items:
            judge(lem, rf, w, t, None, ctx, lambda w=w: {g: r for g, r in cfg.items() if g.startswith(w[:2].lower())})
        if chunk[0] == 'english':
            among_decoys(items, ctx)
        return
    among_decoys(items, ctx)
    for members in groups(list(dict.fromkeys(items))):
        cfgs = [configs(w, t, tier) for w, t in members]
        for k in range(max(len(c) for c in cfgs)):
            live = [(w, t, c[k]) for (w, t), c in zip(members, cfgs) if k < len(c)]
            table = {}
            for _, _, c in live:
                table.update(table_of(c))
            lem, rf = lemmatizer(table), ref(table)
            for w, t, c in live:
                judge(lem, rf, w, t, c, ctx)


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    table = {g: tuple(v) for g, v in case['known'].items()} if any(isinstance(v, list) for v in case['known'].values()) else table_of(case['known'])
    judge(lemmatizer(table), ref(table), case['word'], case['tag'], case['known'], ctx)
    return ctx.fails[0][1] if ctx.fails else None
