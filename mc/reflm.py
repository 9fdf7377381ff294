"""Reference models for the language model, the lemmatizer, the standardizer and past participles.

Written as ordered tables, independent of the implementation; the language model is a plain dictionary
{n-gram: (count, probability)}.
"""
import re

CONS, VOW = set('qwrtpsdfghjklzxcvbnm'), set('eyuioa')


class RefLM:

    def __init__(self, table):
        self.t = dict(table)

    def has(self, ngram, n=1):
        return n >= 1 and ngram in self.t and self.t[ngram][0] >= n

    def best(self, *ngrams):
        """likeliest known n-gram of the selection, the first one listed if equally likely"""
        known = [g for g in ngrams if g in self.t]
        if not known:
            return None
        top = max(self.t[g][1] for g in known)
        return next(g for g in known if self.t[g][1] == top)


# ------------------------------------------------------------------ lemmas

FULL = {
    ('VERB', "'m"): ('be', None), ('VERB', 'am'): ('be', None), ('VERB', "'re"): ('be', None), ('VERB', 'are'): ('be', None),
    ('VERB', "'s"): ('be', 'THIRD_PERSON'), ('VERB', 'is'): ('be', 'THIRD_PERSON'), ('VERB', 'being'): ('be', 'PROGRESSIVE'),
    ('VERB', 'has'): ('have', 'THIRD_PERSON'), ('VERB', 'doing'): ('do', 'PROGRESSIVE'), ('VERB', 'need'): ('need', None),
    ('ADJ', 'better'): ('good', 'COMPARATIVE'), ('ADJ', 'best'): ('good', 'SUPERLATIVE'),
    ('ADV', 'better'): ('well', 'COMPARATIVE'), ('ADV', 'best'): ('well', 'SUPERLATIVE'), ('ADV', "'"): ("'s", None),
}
NOUNISH = {'NOUN', 'PROPN', 'PRON', 'SYM', 'NUM'}
for _t in NOUNISH:
    FULL[(_t, "'s")] = ('we', None)
    FULL[(_t, 'acumen')] = ('acumen', None)

PREFIXES = ['re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand']

# (ending, minimal length of the start, condition on the start, how stems are made, suffix)
#   cond: 'cvv' vowel + doubled consonant; 'cons' ends with a consonant; '' none
#   make: 'double' start minus two letters + one or both; 'e' start or start+e; 'is' also start+is; or literal endings
RULES = {
    'ADJ': [
        ('est', 4, 'cvv', 'double', 'SUPERLATIVE'),
        ('er', 4, 'cvv', 'double', 'COMPARATIVE'),
        ('iest', 2, 'cons', ['y'], 'SUPERLATIVE'),
        ('est', 3, '', 'e', 'SUPERLATIVE'),
        ('ier', 2, 'cons', ['y'], 'COMPARATIVE'),
        ('er', 3, 'notadj', 'e', 'COMPARATIVE'),
    ],
    'VERB': [
        ('icking', 2, 'cons', ['ic'], 'PROGRESSIVE'),
        ('icked', 2, 'cons', ['ic'], 'PAST'),
        ('ing', 4, 'cvv', 'double', 'PROGRESSIVE'),
        ('ing', 3, '', 'e', 'PROGRESSIVE'),
        ('icks', 2, 'cons', ['ic'], 'THIRD_PERSON'),
        ('ed', 4, 'cvv', 'double', 'PAST'),
        ('ied', 2, 'cons', ['y'], 'PAST'),
        ('ies', 1, 'cons', ['y', 'ie'], 'THIRD_PERSON'),
        ('ed', 2, '', 'e', 'PAST'),
        ('es', 2, '', 'e', 'THIRD_PERSON'),
        ('s', 2, '', [''], 'THIRD_PERSON'),
    ],
    'NOUN': [
        ('a', 5, '', ['on'], 'PLURAL'),
        ('ieves', 1, 'cons', ['ief'], 'PLURAL'),
        ('i', 4, '', ['us'], 'PLURAL'),
        ('ies', 2, 'cons', ['y', 'ie'], 'PLURAL'),
        ('ves', 2, '', ['f', 'fe', 've'], 'PLURAL'),
        ('men', 2, '', ['man'], 'PLURAL'),
        ('es', 2, '', 'is', 'PLURAL'),
        ('s', 2, 'nosses', [''], 'PLURAL'),
    ],
}
MODALS = ['i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should']


def split_prefix(word):
    """(prefix, rest) or None; a hyphen counts as the end of a prefix"""
    parts = word.split('-')
    if len(parts) == 2:
        return parts[0] + '-', parts[1]
    hits = [p for p in PREFIXES if word.startswith(p)]
    if hits:
        return hits[0], word[len(hits[0]):]
    return None


class RefLemmatizer:

    def __init__(self, lm, adjs, preterits, pps, plurals, comparatives, superlatives):
        self.lm, self.adjs = lm, adjs
        self.irregular = {
            'NOUN': [(plurals, 'PLURAL')],
            'VERB': [(pps, 'PAST'), (preterits, 'PAST')],
            'ADJ': [(comparatives, 'COMPARATIVE'), (superlatives, 'SUPERLATIVE')],
        }

    def _irr(self, word, tag):
        for table, suffix in self.irregular.get(tag, []):
            if word in table:
                return table[word], suffix
        return None

    def __call__(self, word, tag):
        word = word.lower()
        if (tag, word) in FULL:
            return FULL[(tag, word)]
        hit = self._irr(word, tag)
        if hit:
            return hit
        pre = split_prefix(word)
        if pre:
            hit = self._irr(pre[1], tag)
            if hit:
                return pre[0] + hit[0], hit[1]
        for ending, least, cond, make, suffix in RULES.get(tag, []):
            if not word.endswith(ending) or len(word) - len(ending) < least:
                continue
            start = word[:len(word) - len(ending)]
            if cond == 'cvv' and not (len(start) > 2 and start[-1] in CONS and start[-2] == start[-1] and start[-3] in VOW):
                continue
            if cond == 'cons' and start[-1] not in CONS:
                continue
            if cond == 'notadj' and word in self.adjs:
                continue
            if cond == 'nosses' and (word.endswith('ss') or self.lm.has(word + 'es')):
                continue
            if make == 'double':
                stem, ends = start[:-2], [start[-1], start[-1] * 2]
            elif make == 'e':
                stem, ends = start[:-1], [start[-1], start[-1] + 'e']
            elif make == 'is':
                stem, ends = start[:-1], [start[-1], start[-1] + 'e', start[-1] + 'is']
            elif make == ['']:
                stem, ends = start[:-1], [start[-1]]
            else:
                stem, ends = start, make
            got = self._arbitrate(stem, ends, tag)
            if got:
                return got, suffix
            pre = split_prefix(stem)
            if pre:
                got = self._arbitrate(pre[1], ends, tag)
                if got:
                    return pre[0] + got, suffix
            return word, None
        return word, None

    def _arbitrate(self, stem, ends, tag):
        cands = [stem + e for e in ends]
        if len(cands) == 1:
            return cands[0] if self.lm.has(cands[0]) else None
        left = MODALS if tag == 'VERB' else cands
        best = self.lm.best(*[w + ' ' + c for c in cands for w in left])
        if best:
            return best.split()[-1]
        return self.lm.best(*cands)


# ------------------------------------------------------------------ past participles

def ref_past_participle(lemma, lm, irregular):
    """Returns the set of acceptable answers (two when two spellings are equally likely)."""
    if lemma in irregular:
        return {irregular[lemma]}
    if lemma.endswith('e'):
        return {lemma + 'd'}
    if len(lemma) > 1:
        a, b = lemma[-2], lemma[-1]
        if a in CONS and b == 'y':
            return {lemma[:-1] + 'ied'}
        if a in VOW and b in CONS:
            c1, c2 = lemma + 'ed', lemma + b + 'ed'
            known = [c for c in (c1, c2) if c in lm.t]
            if known:
                top = max(lm.t[c][1] for c in known)
                return {c for c in known if lm.t[c][1] == top}
    return {lemma + 'ed'}


# ------------------------------------------------------------------ spelling

def _cut(word, mids, ends):
    """Longest start first, as in a greedy reading: start (2+ letters) + one of mids + one of ends"""
    best = None
    for k in range(len(word) - 1, 1, -1):
        start, rest = word[:k], word[k:]
        if not re.fullmatch('[a-z]+', start, re.I):
            continue
        for m in mids:
            if rest[:len(m)].lower() == m:
                for e in ends:
                    if rest[len(m):].lower() == e:
                        return start, rest[:len(m)], rest[len(m):]
    return best


def ref_standard(word, lm):
    """None where the table does not decide, else the standard form"""
    if lm.has(word, 5):
        return word
    c = _cut(word, ['our', 'or'], ['ing', 'ed', 's', ''])
    if c and len(c[0]) > 2:
        b = lm.best(c[0] + 'or', c[0] + 'our')
        if b:
            return b + c[2]
    c = _cut(word, ['ys', 'yz', 'is', 'iz'], ['ations', 'ation', 'ers', 'er', 'ing', 'ed', 'es', 'e'])
    if c and len(c[0]) > 2:
        b = lm.best(c[0] + c[1][0] + 'ze', c[0] + c[1][0] + 'se')
        if b:
            return b[:-1] + c[2]
    c = _cut(word, ['c', 's'], ['ives', 'ive', 'es', 'e'])
    if c and len(c[0]) > 2:
        b = lm.best(c[0] + 'se', c[0] + 'ce')
        if b:
            return b[:-1] + c[2]
    c = _cut(word, ['og', 'ogue'], ['s', ''])
    if c and len(c[0]) > 2:
        b = lm.best(c[0] + 'og', c[0] + 'ogue')
        if b:
            return b + c[2]
    c = _cut(word, ['el', 'ell'], ['ing', 'ers', 'ed', 'er'])
    if c and len(c[0]) > 2:
        b = lm.best(c[0] + 'el' + c[2], c[0] + 'ell' + c[2])
        if b:
            return b
    for two in ('ae', 'oe'):
        if len(word) > 4 and two in word:
            b = lm.best(word.replace(two, 'e'), word)
            if b:
                return b
    return word
