"""Reference semantics: labelled sentence -> predicates, as relations over word positions.

Input: list of (token, tag name, dep name, parent index) and the switch for noun chunking.
Output: list of (code, words, affirmative) triples.
Only facts are computed (who is a subject of what); nothing is mutated.
"""
NOUNISH = {'NOUN', 'PROPN', 'PRON', 'SYM', 'NUM'}
PROPISH = NOUNISH | {'ADJ'}
FUNCTIONAL = {'ART', 'AUX', 'CMARK', 'NEG', 'INTJ', 'MARK', 'IMARK', 'PART', 'MODAL'}
MARKERS = {'MARK', 'CMARK', 'IMARK'}
RELATIVE = {'that', 'which', 'who'}
REFLEXIVE = {'myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself',
             'themselves', 'oneself'}
SUBJECT_FORM = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
NO_INTRANSITIVE = {'have', 'get', 'be', 'do'}
NO_PASSIVE = {'have', 'get'}
NOUN_CODE = {'PROPN': 'P', 'PRON': 'O', 'NUM': 'U', 'SYM': 'S'}


class N:
    """a word (or flat name) of the sentence"""

    def __init__(self, key, pos, text, tag):
        self.key, self.pos, self.text, self.tag = key, pos, text, tag
        self.particles, self.inf = [], False
        self.low = text.lower()
        self.lemma, self.suffix, self.canon = self.low, None, self.low
        self.chunk = self.active = None


class RefSem:

    def __init__(self, lemmatize, standardize, participle, adjs, nouns):
        self.lemmatize, self.standardize, self.participle = lemmatize, standardize, participle
        self.adjs, self.nouns = adjs, nouns

    def __call__(self, sample, chunking=True):
        toks = [s[0] for s in sample]
        n = len(toks)
        roots = [i for i, s in enumerate(sample) if s[2] == 'ROOT']
        if not roots:
            return []
        head = {i: s[3] for i, s in enumerate(sample) if s[2] not in ('ROOT', 'NODEP') and s[3] > -1}
        label = {i: sample[i][2] for i in head}

        def kids(h):
            return [i for i in range(n) if head.get(i) == h]

        # ---- words
        words = {}
        if not head:
            r = roots[0]
            words[r] = N(r, r, toks[r], sample[r][1])
        else:
            gone = {i for i in range(n) if i not in head and not kids(i)}
            for i in range(n):
                if label.get(i) == 'FLAT' and not kids(i):
                    chain = [head[i]]
                    while label.get(chain[0]) == 'FLAT':
                        chain.insert(0, head[chain[0]])
                    gone |= set(chain) | {i}
                    words[chain[0]] = N(chain[0], i, ' '.join(toks[k] for k in chain + [i]), sample[i][1])
            for i in range(n):
                parts = [k for k in kids(i) if label[k] == 'PART']
                if parts:
                    gone |= set(parts)
                    w = N(i, i, toks[i], sample[i][1])
                    w.particles = [toks[k].lower() for k in parts if k > i]
                    w.inf = any(k < i and toks[k].lower() == 'to' for k in parts)
                    words[i] = w
            for i in range(n):
                if i not in words and i not in gone:
                    words[i] = N(i, i, toks[i], sample[i][1])
        up = {}  # word -> (label, parent word)
        for i in words:
            if i in head and head[i] in words:
                up[i] = (label[i], head[i])

        def down(i, *labels):
            return [k for k in sorted(words) if k in up and up[k][1] == i and (not labels or up[k][0] in labels)]

        def first(i, lab):
            d = down(i, lab)
            return d[0] if d else None

        live = [i for i in words if not (i in up and up[i][0] in FUNCTIONAL)]
        W = words
        # ---- normalisation
        for i in live:
            w = W[i]
            w.low = self.standardize(w.low)
            w.lemma, w.suffix = self.lemmatize(w.low, w.tag)
        for i in live:
            w = W[i]
            if i in up and not down(i):
                lab, p = up[i]
                if (lab == 'CPL' and W[p].tag in NOUNISH) or lab in ('PROP', 'IPROP'):
                    if w.tag in NOUNISH and w.lemma in self.adjs:
                        w.tag = 'ADJ'
                    elif w.tag == 'ADJ' and w.lemma in self.nouns:
                        w.tag = 'NOUN'
        if chunking:
            inside = {}
            for i in live:
                if W[i].tag in NOUNISH and i in up and up[i][0] == 'CPL' and not down(i, *MARKERS) \
                        and W[i].pos < W[up[i][1]].pos and W[up[i][1]].tag in NOUNISH:
                    inside[i] = up[i][1]
            for i in live:
                if i in inside.values() and i not in inside:
                    members, todo = [], [i]
                    while todo:
                        k = todo.pop()
                        members.append(k)
                        todo += [j for j in inside if inside[j] == k]
                    members.sort(key=lambda k: W[k].pos)
                    W[i].chunk = ' '.join(W[k].lemma for k in members)

        def with_particles(w, lemma):
            return ' '.join([lemma] + w.particles)

        for i in live:
            w = W[i]
            if w.tag == 'PRON' and w.lemma in SUBJECT_FORM:
                w.canon = SUBJECT_FORM[w.lemma]
            elif w.tag == 'NOUN' and w.chunk:
                w.canon = w.chunk
            elif w.tag == 'ADJ':
                verb, w.suffix = self.lemmatize(w.low, 'VERB')
                if w.suffix == 'PAST':
                    w.active = with_particles(w, verb)
                w.canon = with_particles(w, w.lemma)
            elif w.tag == 'VERB':
                w.canon = with_particles(w, w.lemma)
            else:
                w.canon = w.lemma
        live_set = set(live)
        neg = {i: (i in live_set and bool(down(i, 'NEG'))) for i in words}

        def conj(i):
            return (down(i, 'AND') + down(i, 'OR')) if i in live_set else []

        def agg(i):
            return [i] + conj(i)

        def marked(i):
            return bool(down(i, *MARKERS))

        # ---- reference resolution
        def relative(verb, pron):
            if verb in up and up[verb][0] == 'CPL' and W[up[verb][1]].tag in NOUNISH and W[pron].tag == 'PRON' \
                    and W[pron].canon in RELATIVE and not marked(verb):
                return up[verb][1]
            return None

        def refl_obj(verb, pron):
            return first(verb, 'SUBJ') if W[pron].canon in REFLEXIVE else None

        def refl_subj(verb, pron):
            if W[pron].canon in REFLEXIVE and verb in up and up[verb][0] == 'OBJ' and W[up[verb][1]].tag == 'VERB':
                return first(up[verb][1], 'SUBJ')
            return None

        rel = {k: {i: [] for i in words} for k in ('subj', 'obj', 'iobj', 'exist', 'prop', 'iprop', 'adj', 'svi', 'cop', 'pp', 'agent')}

        def some(*vals):
            for v in vals:
                if v is not None:
                    return v
            return None

        def add_subj(verb, s):
            for v in [verb] + [v for v in conj(verb) if not down(v, 'SUBJ')]:
                rel['subj'][v] += agg(s)

        def add_obj(verb, o):
            for v in [verb] + [v for v in conj(verb) if not down(v)]:
                rel['obj'][v] += agg(o)

        naked, mcpl = set(), set()
        for i in live:
            if i not in up:
                continue
            lab, p = up[i]
            if lab == 'SUBJ':
                add_subj(p, some(relative(p, i), refl_subj(p, i), i))
            elif lab == 'OBJ':
                add_obj(p, some(relative(p, i), refl_obj(p, i), i))
            elif lab == 'IOBJ':
                rel['iobj'][p] += agg(i)
            elif lab == 'EXIST':
                rel['exist'][p] += agg(i)
            elif lab == 'PROP':
                rel['prop'][p] += agg(i)
                s = first(p, 'SUBJ')
                if s is not None:
                    s = some(relative(p, s), s)
                    for a in agg(s):
                        rel['cop'][a] += [(p, x) for x in agg(i) if not marked(x)]
            elif lab == 'IPROP':
                rel['iprop'][p] += agg(i)
                o, s = first(p, 'OBJ'), first(p, 'SUBJ')
                if o is not None:
                    for a in agg(o):
                        rel['svi'][a] += [(s, p, x) for x in agg(i)]
            elif lab == 'CPL':
                mark, cmark = first(i, 'MARK'), first(i, 'CMARK')
                if not marked(i):
                    naked.add(i)
                if mark is None:
                    if W[i].tag == 'ADJ':
                        rel['adj'][p] += agg(i)
                        prop = first(i, 'PROP')
                        if W[p].tag in NOUNISH and prop is not None and W[i].suffix == 'PAST':
                            rel['pp'][p] += [(i, x) for x in agg(prop)]
                else:
                    mcpl.add(i)
                    if W[mark].canon == 'by' and p in up and up[p][0] in ('PROP', 'CPL'):
                        rel['agent'][p] += agg(i)
                if cmark is not None and W[p].tag == 'ADJ' and W[i].tag in NOUNISH:
                    rel['adj'][i] += agg(p)
        for i in live:
            if i not in up:
                continue
            p = up[i][1]
            if i in mcpl and W[i].tag == 'VERB' and not down(i, 'SUBJ') and W[p].tag == 'VERB':
                s = first(p, 'SUBJ')
                if s is not None:
                    add_subj(i, s)
            elif i in naked and W[p].tag in NOUNISH and not down(i, 'OBJ'):
                s = first(i, 'SUBJ')
                if s is not None and W[s].canon not in RELATIVE:
                    add_obj(i, p)

        # ---- predicates
        out = []

        def aff(*idxs):
            return sum(1 for i in idxs if i is not None and neg[i]) % 2 == 0

        def noun(i):
            return NOUN_CODE.get(W[i].tag, 'N')

        def adj(i):
            return 'L' if W[i].active else 'A'

        def prop_code(i):
            return adj(i) if W[i].tag == 'ADJ' else noun(i)

        def nouns(idxs):
            return [i for i in idxs if W[i].tag in NOUNISH]

        def emit(code, ws, a):
            out.append((code, tuple(ws), a))

        def heavy(v):
            return bool(rel['prop'][v] or rel['iprop'][v] or rel['exist'][v])

        def verbs():
            return [v for v in live if W[v].tag == 'VERB']

        def pp_of(v):
            return with_particles(W[v], self.participle(W[v].lemma))

        blocked = set()
        for v in verbs():
            if W[v].inf or heavy(v):
                continue
            for s1 in nouns(rel['subj'][v]):
                for o in rel['obj'][v]:
                    if W[o].tag != 'VERB':
                        continue
                    blocked.add(o)
                    for s2 in (nouns(rel['subj'][o]) if rel['subj'][o] else [s1]):
                        front = noun(s1) + 'T' + noun(s2)
                        fw = [W[s1].canon, W[v].canon, W[s2].canon, W[o].canon]
                        if not heavy(o):
                            if not rel['obj'][o] and W[o].canon not in NO_INTRANSITIVE:
                                emit(front + 'I', fw, aff(s1, v, s2, o))
                            for x in nouns(rel['obj'][o]):
                                emit(front + 'T' + noun(x), fw + [W[x].canon], aff(s1, v, s2, o, x))
                        for x in rel['prop'][o]:
                            emit(front + 'C' + prop_code(x), fw + [W[x].canon], aff(s1, v, s2, o, x))
        for v in live:
            if v in blocked:
                continue
            if W[v].tag == 'VERB':
                if W[v].inf or heavy(v):
                    continue
                if not rel['obj'][v] and W[v].canon not in NO_INTRANSITIVE:
                    for s in nouns(rel['subj'][v]):
                        emit(noun(s) + 'I', [W[s].canon, W[v].canon], aff(s, v))
                for o in nouns(rel['obj'][v]):
                    for s in nouns(rel['subj'][v]):
                        emit(noun(s) + 'T' + noun(o), [W[s].canon, W[v].canon, W[o].canon], aff(s, v, o))
                for o in nouns(rel['iobj'][v]):
                    for s in nouns(rel['subj'][v]):
                        emit(noun(s) + 'R' + noun(o), [W[s].canon, W[v].canon, W[o].canon], aff(s, v, o))
            elif W[v].tag in NOUNISH:
                x = v
                for s, verb, ip in rel['svi'][x]:
                    if W[ip].tag in PROPISH:
                        emit(noun(x) + 'C' + prop_code(ip), [W[x].canon, 'be ' + pp_of(verb), W[ip].canon], aff(s, verb, x, ip))
                for c, p in rel['cop'][x]:
                    if W[p].tag in PROPISH:
                        emit(noun(x) + 'C' + prop_code(p), [W[x].canon, W[c].canon, W[p].canon], aff(x, c, p))
                        if W[p].tag == 'ADJ' and W[p].active:
                            for a in nouns(rel['agent'][p]):
                                emit(noun(a) + 'T' + noun(x), [W[a].canon, W[p].active, W[x].canon], aff(a, p, x))
                for pp, p in rel['pp'][x]:
                    if W[p].tag in PROPISH:
                        emit(noun(x) + 'C' + prop_code(p), [W[x].canon, 'be ' + W[pp].canon, W[p].canon], aff(x, pp, p))
                for a in rel['adj'][x]:
                    emit(noun(x) + 'C' + adj(a), [W[x].canon, 'be', W[a].canon], aff(a, x))
                    if W[a].active:
                        for g in nouns(rel['agent'][a]):
                            emit(noun(g) + 'T' + noun(x), [W[g].canon, W[a].active, W[x].canon], aff(g, a, x))
        for v in verbs():
            if heavy(v) or W[v].canon in NO_PASSIVE:
                continue
            for o in nouns(rel['obj'][v]):
                subs = rel['subj'][v]
                all_neg = bool(subs) and all(neg[s] for s in subs)
                a = aff(v, o) != all_neg
                emit(noun(o) + 'CL', [W[o].canon, 'be', pp_of(v)], a)
        return out
