"""Reference for building language models: counting and smoothing with exact fractions."""
import collections
import re
from fractions import Fraction as F


def valid(tok):
    return tok == 'I' or bool(re.fullmatch('[a-z][a-zA-Z]*', tok))


def count(sentences, max_order):
    """sentences: lists of tokens -> {n-gram: count} for orders 1..max_order"""
    out = collections.Counter()
    for toks in sentences:
        for n in range(1, max_order + 1):
            for i in range(len(toks) - n + 1):
                part = toks[i:i + n]
                if all(valid(t) for t in part):
                    out[' '.join(part).lower()] += 1
    return out


def order(g):
    return len(g.split())


def mle(counts):
    total = collections.Counter()
    for g, c in counts.items():
        total[order(g)] += c
    return {g: F(c, total[order(g)]) for g, c in counts.items()}


class Refused(Exception):
    pass


def discounts(counts, max_order):
    out = {}
    for n in range(2, max_order + 1):
        n1, n2, n3, n4 = (sum(1 for g, c in counts.items() if order(g) == n and c == k) for k in (1, 2, 3, 4))
        if not (n1 and n2 and n3 and n4):
            raise Refused()
        y = F(n1, n1 + 2 * n2)
        out[n] = (F(0), 1 - 2 * y * F(n2, n1), 2 - 3 * y * F(n3, n2), 3 - 4 * y * F(n4, n3))
    return out


def mkn(counts, max_order):
    """Interpolated modified Kneser-Ney: absolute counts at the n-gram's own order, continuation counts below."""
    d = discounts(counts, max_order)
    toks = {g: tuple(g.split()) for g in counts}
    by = collections.defaultdict(list)
    for g in counts:
        by[len(toks[g])].append(g)
    left = collections.Counter()       # distinct words seen before an n-gram
    both = collections.Counter()       # distinct (word before, word after) pairs around a context
    right = collections.defaultdict(lambda: [0, 0, 0, 0])     # words after a context seen once, twice, more often
    for g, t in toks.items():
        if len(t) > 1:
            left[t[1:]] += 1
            right[t[:-1]][min(counts[g], 3)] += 1
        if len(t) > 2:
            both[t[1:-1]] += 1
    bigrams = len(by[2])

    def p(t, top):
        k = len(t)
        if k == 1:
            return F(left[t], bigrams)
        ctx = t[:-1]
        if top:
            c, disc, total = counts[' '.join(t)], k, counts[' '.join(ctx)]
        else:
            c, disc, total = left[t], k + 1, both[ctx]
        first = max(c - d[disc][min(c, 3)], 0) / F(total)
        r = right[ctx]
        weight = (r[1] * d[k][1] + r[2] * d[k][2] + r[3] * d[k][3]) / F(total)
        return first + weight * p(t[1:], False)
    return {g: p(toks[g], True) for g in counts}
