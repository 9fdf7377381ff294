"""Shared by the checks on predicate extraction: building labelled sentences, comparing with the reference semantics."""
import collections
import itertools
import os
import zlib

from . import semfix
from .core import exc_text



def S(*items):
    """items: (name, word, tag, dep, parent name or None) in sentence order; falsy ones are skipped, and so are those whose
    parent is missing."""
    items = [i for i in items if i]
    while True:
        names = {i[0] for i in items}
        keep = [i for i in items if i[4] is None or i[4] in names]
        if len(keep) == len(items):
            break
        items = keep
    pos = {i[0]: k for k, i in enumerate(items)}
    return [(i[1], i[2], i[3], -1 if i[4] is None else pos[i[4]]) for i in items]


def compare(sample, ctx, want=None):
    ok, got = ctx.call(semfix.extract, sample)
    if not ok:
        return exc_text(got), None
    if want is None:
        want = semfix.REF(sample, True)
    if sorted(got) != sorted(want):
        extra = collections.Counter(got) - collections.Counter(want)
        lost = collections.Counter(want) - collections.Counter(got)
        return 'extra predicates %r, missing predicates %r' % (list(extra.elements()), list(lost.elements())), None
    return None, got


ALIKE = {'NOUN': 'cat', 'VERB': 'see', 'ADJ': 'painted', 'PROPN': 'John'}
MORE = {'NOUN': 'chair', 'VERB': 'walk', 'ADJ': 'new', 'PROPN': 'Bob', 'PRON': 'they', 'NUM': '7', 'SYM': '@y'}


def _moved(sample, at, extra):
    """Insert the token extra before position at; links are renumbered. The head of extra is a position of the old numbering."""
    def new(i):
        return i if i < at else i + 1
    out = [(t[0], t[1], t[2], new(t[3]) if t[3] >= 0 else -1) for t in sample]
    return out[:at] + [(extra[0], extra[1], extra[2], new(extra[3]) if extra[3] >= 0 else -1)] + out[at:]


NB_DISGUISES = 12


def disguise(sample, kind, num):
    """The same clause shape in another garb: far from the start, spread out, in capitals, with equal words, inside a larger tree, backwards,
    negated, coordinated"""
    sample = list(sample)
    n = len(sample)
    nodep = (',', 'PUNCT', 'NODEP', -1)
    if kind == 0:
        for _ in range(10):
            sample = _moved(sample, 0, nodep)
    elif kind == 1:
        for k in range(n, 0, -1):
            sample = _moved(sample, k, nodep)
    elif kind == 2:
        sample = [(t[0].upper(),) + tuple(t[1:]) for t in sample]
    elif kind == 3:
        sample = [(ALIKE.get(t[1], t[0]),) + tuple(t[1:]) for t in sample]
    elif kind == 4:
        for _ in range(max(1, 49 - n)):
            sample = _moved(sample, n // 2, nodep)
    elif kind == 5:  # the whole clause hangs below another one
        sample = [(t[0], t[1], 'SPLIT' if t[2] == 'ROOT' else t[2], n + 1 if t[2] == 'ROOT' else t[3]) for t in sample]
        sample += [('We', 'PRON', 'SUBJ', n + 1), ('help', 'VERB', 'ROOT', -1), ('Paris', 'PROPN', 'OBJ', n + 1)]
    elif kind == 6:
        sample = [(t[0], t[1], t[2], n - 1 - t[3] if t[3] >= 0 else -1) for t in reversed(sample)]
    elif kind in (7, 8, 9):
        for j in range(kind - 6):
            k = (num + j * 2) % len(sample)
            if sample[k][2] != 'NODEP':
                sample = _moved(sample, k + (num // 7) % 2, ('not', 'ADV', 'NEG', k))
    else:
        for j in range(kind - 9):
            k = (num + j * 2) % len(sample)
            t = sample[k]
            if t[2] != 'NODEP' and t[1] in MORE:
                sample = _moved(sample, k + 1, (MORE[t[1]], t[1], 'AND' if num % 2 else 'OR', k))
    return sample


def disguises(sample):
    """A fixed choice of garbs per sample, so that every kind is met across a family"""
    num = zlib.crc32(repr(sample).encode())
    kinds = {num % NB_DISGUISES} | ({(num // 5) % NB_DISGUISES, (num // 11) % NB_DISGUISES} if os.environ.get('MC_TIER') == 'thorough' else set())
    return [disguise(sample, k, num // NB_DISGUISES) for k in sorted(kinds)]


def case(ctx, sample, plain=False):
    """Judge a sample and its disguises; returns the predicates of the sample as it is"""
    got = _case(ctx, sample)
    if got is not None and not plain:
        for d in disguises(sample):
            if _case(ctx, d) is None:
                return None
    return got


def _case(ctx, sample):
    msg, got = compare(sample, ctx)
    if msg:
        ctx.fail({'sample': sample}, msg)
        return None
    ctx.done(tuple(sorted(got)), bool(got), {'sample': [' '.join(map(str, t)) for t in sample], 'predicates': got[:4]})
    return got


def replay(c):
    from .core import Ctx
    return compare([tuple(t) for t in c['sample']], Ctx())[0]


def rooted(n):
    """All trees over 0..n-1 as head lists"""
    for heads in itertools.product(range(-1, n), repeat=n):
        if sum(h == -1 for h in heads) != 1 or any(h == i for i, h in enumerate(heads)):
            continue
        if all(_ends(heads, i) for i in range(n)):
            yield heads


def _ends(heads, i):
    for _ in range(len(heads) + 1):
        if i == -1:
            return True
        i = heads[i]
    return False


DEPS = 'AND ART AUX CALLEE CMARK CPL EXIST FLAT IMARK INTJ IOBJ IPROP MARK MODAL NEG OBJ OR ORPHAN PART PROP SPLIT SUBJ'.split()
# one word per tag and position: collisions between words are avoided on purpose in most families
WORDS = {'NOUN': ['cat', 'dog', 'tea', 'car'], 'VERB': ['eat', 'saw', 'likes', 'painted'], 'ADJ': ['red', 'painted', 'big', 'called'],
         'PRON': ['who', 'himself', 'them', 'that'], 'PROPN': ['John', 'London', 'Smith', 'Bob'], 'NUM': ['2', '34', '7', '50'],
         'SYM': ['#x', 'a.com', '@y', '$'], 'ADV': ['not', 'by', 'up', 'out'], 'PREP': ['by', 'to', 'of', 'than'],
         'FRAG': ['up', 'to', 'out', 'off'], 'CONJ': ['but', 'and', 'than', 'or'], 'DET': ['the', 'a', 'no', 'all'], 'MAT': ['do', 'will', 'be', 'have'],
         'PUNCT': [',', '.', '!', '"'], 'THERE': ['there', 'here', 'There', 'Here'], 'EXPR': ['oh', 'hi', 'ah', 'hey']}


def trees(n, deps, tags, part=0, parts=1):
    """Every tree of n words x every labelling x every tagging"""
    num = 0
    for heads in rooted(n):
        root = heads.index(-1)
        for ds in itertools.product(deps, repeat=n - 1):
            num += 1
            if num % parts != part:
                continue
            ds = list(ds)
            ds.insert(root, 'ROOT')
            for tg in itertools.product(tags, repeat=n):
                yield [(WORDS[t][i % 4], t, ds[i], heads[i]) for i, t in enumerate(tg)]
