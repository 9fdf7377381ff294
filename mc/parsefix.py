"""Fixture for the parser: word vectors in the scratch data dir and helpers around the network stand-in."""
import zlib

import numpy as np

from . import boot, nets

VOCAB = ('cat dog bird eat see like the a red big i you he it run walk john smith not and or by to .'.split()
         + ['ab', 'abc', 'x', 'ʃʃʃʃ', '50', "n't", 'antidisestablishmentarian', 'antidisestablishmentarian'[-20:], 'antidisestablishmentarian'[:20], 'caf\u00e9', 'caf', '\u00e9', 'stra\u00dfe', 'strasse', '\u03c3\u03b1\u03c2', '\u03c3\u03b1\u03c3', '\ufb01n', 'fin', 'i\u0307x', '\u0131x', 'ix', 'a' * 20, 'a' * 21]
         # longer relatives of words that are not known, and entries in capitals, which no word is looked up by
         + ['zorgs', 'zorged', 'zorging', "zorg's", 'zorg-', 'zorg.', '#zorg', 'unzorg', 'Smith', 'DOG', 'Red'])
SIZE = 100


def vector(word):
    """A distinct, reproducible vector per word; of large and small numbers of both signs"""
    seed = zlib.crc32(word.encode())
    return (np.random.RandomState(seed).randn(SIZE) * (1, 0.3, 1e-7, 20, 1e6, 1)[seed % 6]).astype(np.float32)


VECTORS = {}


def setup():
    boot.boot()
    VECTORS.update({w: vector(w) for w in VOCAB if w == w.lower()})
    every = dict(VECTORS, **{w: vector(w) for w in VOCAB})
    boot.write_word_vectors(every)


def ref_chars(tokens):
    codes = nets.char_codes()
    unk = max(codes.values()) + 1
    m = [[0] * nets.WORD for _ in range(nets.SENT)]
    for r, t in enumerate(['ʃʃʃ'] + list(tokens) + ['ʄʄʄ']):
        chars = [c for c in t][-20:]
        row = [codes['†']] + [codes.get(c, unk) for c in chars] + [codes['‡']]
        m[r][:len(row)] = row
    return np.array(m)


def ref_words(tokens):
    m = np.zeros((nets.SENT, SIZE), dtype=np.float32)
    for r, t in enumerate(tokens):
        v = VECTORS.get(t.lower())
        if v is not None:
            m[r + 1] = v
    return m


def zeros(*shape):
    return [0] * shape[0]


def ref_decode(deps, answer):
    """Arc-eager decoding as documented: LEFT = arc from the next word to the last open one, which is closed; RIGHT = arc from
    the last open word to the next one, which is opened; REDUCE closes the last open word; SHIFT opens the next word.
    deps: names per word; answer(i, j) -> transition.  Returns (root, {child: (label, parent)}) or None."""
    todo = [i for i, d in enumerate(deps) if d != 'NODEP']
    links, opened = {}, []
    if todo:
        opened.append(todo.pop(0))
    while todo:
        i, j = opened[-1], todo[0]
        t = answer(i, j)
        if t == nets.LEFT:
            if i not in links:
                links[i] = ('SPLIT' if deps[i] == 'ROOT' else deps[i], j)
            opened.pop()
        elif t == nets.RIGHT:
            links[j] = ('SPLIT' if deps[j] == 'ROOT' else deps[j], i)
            opened.append(todo.pop(0))
        elif t == nets.REDUCE:
            opened.pop()
        else:
            opened.append(todo.pop(0))
        if not opened and todo:
            opened.append(todo.pop(0))
    if not links:
        return None
    heads = {p for _, p in links.values()}
    return min(h for h in heads if h not in links), links


def links_of(tree):
    """{child: (label name, parent)} as a user reads it off a tree"""
    out = {}
    for label, parent, child in tree:
        if child in out:
            raise AssertionError('word %d has two parents' % child)
        out[child] = (label.name, parent)
    return out


def projective(links):
    arcs = [tuple(sorted((c, p))) for c, (_, p) in links.items()]
    for a, b in arcs:
        for c, d in arcs:
            if a < c < b < d:
                return False
    return True


def acyclic(links):
    for c in links:
        seen = set()
        while c in links:
            if c in seen:
                return False
            seen.add(c)
            c = links[c][1]
    return True
