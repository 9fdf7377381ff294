"""Coordination: every number of conjuncts in every argument position, and their combinations."""
import itertools

from .. import semcheck, semfix
from ..semcheck import S, case

PROP = 'C18'
TITLE = 'Coordination distributes'
RULE = 'extracted predicates equal, as a multiset, those of the reference semantics; where the grammar is a plain product, they also equal ' \
       'the cross product of the conjuncts written down directly; non-trivial: at least one predicate'
ASSUMES = ['sentences are given as labelled trees', 'the order of predicates within a sentence is not judged']


def setup():
    semfix.setup()


def BOUNDS(tier):
    return {'disguises': 'every case also in one of %d garbs (far from the start, spread out, capitals, equal words, below another clause, backwards, negated, coordinated), rotating' % semcheck.NB_DISGUISES,
            'slots': 'subject, verb, object, recipient, property, indirect property, adjective, agent, clause object: 0..3 conjuncts in two slots at a time, '
                     'AND / OR per conjunct, also 4 and 6 conjuncts, words repeated; three slots at a time with 0..%d conjuncts' % (2 if tier == 'quick' else 6),
            'shape': 'conjuncts attached to the first one (flat) or to the previous one (chained)',
            'verbs': '1..3 coordinated verbs, each with or without own subject, object, auxiliary',
            'verbs with a dependent': '2 to 3 coordinated verbs, each with one of %d dependents or none, and one object at any of them' % (len(VDEPS) - 1),
            'tags': 'conjuncts of mixed parts of speech in every slot',
            'products': 'subjects x objects and subjects x properties with 1..4 conjuncts against the cross product'}


BASE = {'SUBJ': [('cat', 'NOUN'), ('dog', 'NOUN'), ('John', 'PROPN'), ('he', 'PRON'), ('34', 'NUM'), ('birds', 'NOUN'), ('cat', 'NOUN')],
        'OBJ': [('tea', 'NOUN'), ('fish', 'NOUN'), ('them', 'PRON'), ('Paris', 'PROPN'), ('box', 'NOUN'), ('#x', 'SYM'), ('tea', 'NOUN')],
        'IOBJ': [('bird', 'NOUN'), ('Bob', 'PROPN'), ('me', 'PRON'), ('2', 'NUM'), ('dogs', 'NOUN'), ('us', 'PRON'), ('bird', 'NOUN')],
        'PROP': [('big', 'ADJ'), ('painted', 'ADJ'), ('hat', 'NOUN'), ('old', 'ADJ'), ('John', 'PROPN'), ('liked', 'ADJ'), ('big', 'ADJ')],
        'IPROP': [('red', 'ADJ'), ('small', 'ADJ'), ('house', 'NOUN'), ('hot', 'ADJ'), ('painted', 'ADJ'), ('Bob', 'PROPN'), ('red', 'ADJ')],
        'EXIST': [('key', 'NOUN'), ('cup', 'NOUN'), ('box', 'NOUN'), ('car', 'NOUN'), ('hat', 'NOUN'), ('it', 'PRON'), ('key', 'NOUN')],
        'CPL': [('tall', 'ADJ'), ('called', 'ADJ'), ('nice', 'ADJ'), ('new', 'ADJ'), ('red', 'ADJ'), ('painted', 'ADJ'), ('tall', 'ADJ')]}
FORMS = [(), ('AND',), ('OR',), ('AND', 'AND'), ('AND', 'OR'), ('OR', 'AND'), ('AND', 'AND', 'AND'),
         ('OR', 'OR'), ('OR', 'OR', 'OR'), ('OR', 'AND', 'OR', 'AND'), ('AND',) * 6, ('OR',) * 6]


def chunks(tier):
    slots = ['SUBJ', 'OBJ', 'IOBJ', 'PROP', 'IPROP', 'EXIST']
    out = [('slots', a, b) for a, b in itertools.combinations(slots, 2)]
    if tier:
        out += [('triple', tier) + c for c in itertools.combinations(slots, 3)]
    out += [('verbs', n, k) for n in (1, 2, 3) for k in range(4 if n == 3 else 1)]
    out += [('vdeps', k) for k in range(4)]
    out += [('adjs', 0), ('agents', 0), ('clause', 0), ('tags', 0), ('product', 0), ('pron', 0)]
    return out


def group(slot, form, parent, chained, name, words=None):
    ws = words or BASE[slot]
    out = [(name + '0', ws[0][0], ws[0][1], slot, parent)]
    for i, c in enumerate(form):
        out.append((name + str(i + 1), ws[i + 1][0], ws[i + 1][1], c, name + str(i if chained else 0)))
    return out


def clause(groups, verb='made'):
    subj = [g for g in groups if g and g[0][3] == 'SUBJ']
    rest = [g for g in groups if g and g[0][3] != 'SUBJ']
    return S(*[x for g in subj for x in g], ('v', verb, 'VERB', 'ROOT', None), *[x for g in rest for x in g])


def slots2(a, b, forms, more=()):
    for fa, fb, ch in itertools.product(forms, forms, (False, True)):
        groups = [group(a, fa, 'v', ch, 'a'), group(b, fb, 'v', ch, 'b')]
        yield clause(groups)
        if 'SUBJ' not in (a, b):
            yield clause([group('SUBJ', (), 'v', ch, 's')] + groups)
            yield clause([group('SUBJ', ('AND',), 'v', ch, 's')] + groups)
        if 'OBJ' not in (a, b):
            yield clause(groups + [group('OBJ', (), 'v', ch, 'o')])
            yield clause(groups + [group('OBJ', ('OR',), 'v', ch, 'o')])


def verbs(n, part):
    words = ['eat', 'see', 'like']
    num = 0
    opts = list(itertools.product((0, 1), (0, 1), (0, 1)))  # own subject, own object, auxiliary
    for choice in itertools.product(opts, repeat=n):
        for conj in itertools.product(('AND', 'OR'), repeat=n - 1):
            for ch, sc, oc in itertools.product((False, True), (0, 1), (0, 1)):
                num += 1
                if n == 3 and num % 4 != part:
                    continue
                items = []
                for i, (s, o, x) in enumerate(choice):
                    v = 'v%d' % i
                    if s:
                        items.append(('s%d' % i, BASE['SUBJ'][i][0], BASE['SUBJ'][i][1], 'SUBJ', v))
                        if sc and i == 0:
                            items.append(('sc', 'we', 'PRON', 'AND', 's0'))
                    if x:
                        items.append(('x%d' % i, 'do', 'MAT', 'AUX', v))
                    items.append((v, words[i], 'VERB', 'ROOT' if i == 0 else conj[i - 1], None if i == 0 else ('v%d' % (i - 1) if ch else 'v0')))
                    if o:
                        items.append(('o%d' % i, BASE['OBJ'][i][0], BASE['OBJ'][i][1], 'OBJ', v))
                        if oc and i == n - 1:
                            items.append(('oc', 'cup', 'NOUN', 'OR', 'o%d' % i))
                yield S(*items)


VDEPS = [(), ('up', 'PREP', 'PART'), ('do', 'MAT', 'AUX'), ('not', 'ADV', 'NEG'), ('often', 'ADV', 'CPL'), ('to', 'PREP', 'MARK'), ('can', 'MAT', 'MODAL'), ('Bob', 'PROPN', 'IOBJ'),
         ('oh', 'EXPR', 'INTJ'), ('big', 'ADJ', 'IPROP'), ('run', 'VERB', 'CPL'), ('well', 'ADV', 'OBJ'), ('fish', 'NOUN', 'OBJ')]


def verb_deps(part):
    """coordinated verbs where each has one dependent of some kind: which of them share the object"""
    num = 0
    for d0, d1, d2 in itertools.product(VDEPS, VDEPS, (None,) + tuple(VDEPS)):
        for ch, holder, conj in itertools.product((False, True), (0, 1, 2), ('AND', 'OR')):
            num += 1
            if num % 4 != part or (holder == 2 and d2 is None):
                continue
            items = [('s', 'cat', 'NOUN', 'SUBJ', 'v0')]
            for i, d in enumerate((d0, d1, d2)):
                if d is None:
                    continue
                v = 'v%d' % i
                before = d and d[2] in ('AUX', 'NEG', 'MARK', 'MODAL', 'INTJ')
                if before:
                    items.append(('d%d' % i,) + d + (v,))
                items.append((v, ('eat', 'see', 'like')[i], 'VERB', 'ROOT' if i == 0 else conj, None if i == 0 else ('v%d' % (i - 1) if ch else 'v0')))
                if d and not before:
                    items.append(('d%d' % i,) + d + (v,))
                if i == holder:
                    items.append(('o', 'tea', 'NOUN', 'OBJ', v))
            yield S(*items)


def adjs():
    for fa, fn, ch, slot in itertools.product(FORMS, FORMS[:4], (False, True), ('SUBJ', 'OBJ', 'PROP')):
        noun = group(slot, fn, 'v', ch, 'n', [('cat', 'NOUN'), ('dog', 'NOUN'), ('bird', 'NOUN')])
        adj = group('CPL', fa, 'n0', ch, 'a')
        if slot == 'SUBJ':
            yield S(*adj, *noun, ('v', 'run', 'VERB', 'ROOT', None))
        else:
            yield S(('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'see', 'VERB', 'ROOT', None), *adj, *noun)
        if fa:
            # several separate adjectives, and adjectives of each conjunct
            yield S(*[(x[0], x[1], x[2], 'CPL', 'n%d' % min(i, len(fn))) for i, x in enumerate(adj)], *noun, ('v', 'be', 'VERB', 'ROOT', None))


def agents():
    for fa, fp, fs, ch, slot in itertools.product(FORMS[:5], FORMS[:4], FORMS[:3], (False, True), ('PROP', 'CPL')):
        subj = group('SUBJ', fs, 'v', ch, 's')
        pp = group(slot, fp, 'v' if slot == 'PROP' else 's0', ch, 'p', [('painted', 'ADJ'), ('called', 'ADJ'), ('red', 'ADJ')])
        ag = group('CPL', fa, 'p0', ch, 'g', [('John', 'PROPN'), ('she', 'PRON'), ('dog', 'NOUN')])
        yield S(*subj, ('v', 'is', 'VERB', 'ROOT', None), *pp, ('m', 'by', 'PREP', 'MARK', 'g0'), *ag)
        prop = group('PROP', fa, 'p0', ch, 'g', [('big', 'ADJ'), ('Bob', 'PROPN'), ('hat', 'NOUN')])
        yield S(*subj, ('v', 'is', 'VERB', 'ROOT', None), *pp, *prop)


def clause_objs():
    for f1, f2, f3, fo, ch in itertools.product(FORMS[:4], FORMS[:4], FORMS[:4], FORMS[:3], (False, True)):
        s1 = group('SUBJ', f1, 'v', ch, 's')
        s2 = group('SUBJ', f2, 'w0', ch, 'z', [('I', 'PRON'), ('bird', 'NOUN'), ('they', 'PRON')])
        inner = group('OBJ', f3, 'v', ch, 'w', [('sing', 'VERB'), ('walk', 'VERB'), ('run', 'VERB')])
        obj = group('OBJ', fo, 'w0', ch, 'o', [('tea', 'NOUN'), ('hat', 'NOUN')])
        yield S(*s1, ('v', 'want', 'VERB', 'ROOT', None), *s2, *inner)
        yield S(*s1, ('v', 'want', 'VERB', 'ROOT', None), *inner)
        yield S(*s1, ('v', 'want', 'VERB', 'ROOT', None), *s2, *inner, *obj)
        yield S(*s1, ('v', 'think', 'VERB', 'ROOT', None), *s2, ('w0', 'be', 'VERB', 'OBJ', 'v'), *group('PROP', f3, 'w0', ch, 'p'))


def mixed_tags():
    kinds = [('cat', 'NOUN'), ('it', 'PRON'), ('Bob', 'PROPN'), ('34', 'NUM'), ('#x', 'SYM'), ('red', 'ADJ'), ('run', 'VERB'), ('up', 'ADV')]
    for slot in ('SUBJ', 'OBJ', 'IOBJ', 'PROP', 'IPROP', 'EXIST', 'CPL'):
        for pair in itertools.product(kinds, repeat=2):
            for conj, third in itertools.product(('AND', 'OR'), (None,) + tuple(kinds[::2])):
                form = (conj,) + (('AND',) if third else ())
                g = group(slot, form, 's' if slot == 'CPL' else 'v', False, 'g', list(pair) + ([third] if third else []))
                s = [] if slot == 'SUBJ' else [('s', 'dog', 'NOUN', 'SUBJ', 'v')]
                o = [('o', 'tea', 'NOUN', 'OBJ', 'v')] if slot in ('IPROP', 'SUBJ') else []
                yield S(*s, *(g if slot in ('SUBJ',) else []), ('v', 'make', 'VERB', 'ROOT', None), *o, *(g if slot != 'SUBJ' else []))


def pron():
    # coordination with pronouns that are resolved
    for f1, f2, w, ch in itertools.product(FORMS[:5], FORMS[:4], ('who', 'himself', 'that', 'me'), (False, True)):
        n = group('OBJ', f1, 'v', ch, 'n', [('cat', 'NOUN'), ('dog', 'NOUN'), ('bird', 'NOUN')])
        yield S(('s', 'I', 'PRON', 'SUBJ', 'v'), ('v', 'see', 'VERB', 'ROOT', None), *n, ('r', w, 'PRON', 'SUBJ', 'w'), ('w', 'eat', 'VERB', 'CPL', 'n0'),
                *group('OBJ', f2, 'w', ch, 'o', [('tea', 'NOUN'), ('fish', 'NOUN'), ('hat', 'NOUN')]))
        s = group('SUBJ', f1, 'v', ch, 'n', [('cat', 'NOUN'), ('dog', 'NOUN'), ('bird', 'NOUN')])
        yield S(*s, ('v', 'see', 'VERB', 'ROOT', None), *group('OBJ', f2, 'v', ch, 'o', [(w, 'PRON'), ('fish', 'NOUN'), ('themselves', 'PRON')]))


def products(ctx):
    """Oracle-free of the reference semantics: the cross product written down directly"""
    nouns = ['cat', 'dog', 'bird', 'fish']
    objs = ['tea', 'car', 'key', 'box']
    props = ['big', 'red', 'old', 'tall']
    code = 'NTN'
    pp = semfix.REF.participle('like')
    for ns, no in itertools.product(range(1, 5), range(1, 5)):
        for conj in itertools.product(('AND', 'OR'), repeat=2):
            s = [(nouns[0], 'NOUN', 'SUBJ', ns)] + [(w, 'NOUN', conj[0], 0) for w in nouns[1:ns]]
            v = [('like', 'VERB', 'ROOT', -1)]
            o = [(objs[0], 'NOUN', 'OBJ', ns)] + [(w, 'NOUN', conj[1], ns + 1) for w in objs[1:no]]
            want = [(code, (a, 'like', b), True) for a in nouns[:ns] for b in objs[:no]] + [('NCL', (b, 'be', pp), True) for b in objs[:no]]
            direct(ctx, s + v + o, want)
            p = [(props[0], 'ADJ', 'PROP', ns)] + [(w, 'ADJ', conj[1], ns + 1) for w in props[1:no]]
            want = [('NCA', (a, 'be', b), True) for a in nouns[:ns] for b in props[:no]]
            direct(ctx, s + [('is', 'VERB', 'ROOT', -1)] + p, want)
            vs = [('eat', 'VERB', 'ROOT', -1)] + [(w, 'VERB', conj[1], ns) for w in ('see', 'like', 'want')[:no - 1]]
            want = [('NI', (a, b), True) for a in nouns[:ns] for b in ('eat', 'see', 'like', 'want')[:no]]
            direct(ctx, s + vs, want)


def direct(ctx, sample, want):
    msg, got = semcheck.compare(sample, ctx, want)
    if msg:
        ctx.fail({'sample': sample, 'want': want}, msg)
    else:
        ctx.done(tuple(sorted(got)), True)


def run(chunk, ctx):
    k = chunk[0]
    if k == 'product':
        return products(ctx)
    if k == 'slots':
        it = slots2(chunk[1], chunk[2], FORMS)
    elif k == 'triple':
        it = (clause([group(c, f, 'v', ch, c[:3]) for c, f in zip(chunk[2:], fs)]) for fs in itertools.product(FORMS[:6] if chunk[1] == 'quick' else FORMS, repeat=3) for ch in (False, True))
    else:
        it = {'verbs': lambda: verbs(chunk[1], chunk[2]), 'vdeps': lambda: verb_deps(chunk[1]), 'adjs': adjs, 'agents': agents, 'clause': clause_objs, 'tags': mixed_tags, 'pron': pron}[k]()
    for s in it:
        case(ctx, s)


def replay(c):
    from ..core import Ctx
    want = [(a, tuple(b), f) for a, b, f in c['want']] if 'want' in c else None
    return semcheck.compare([tuple(t) for t in c['sample']], Ctx(), want)[0]
