"""The neural networks as an enumerable environment.

`Net` plays the three keras models.  Which network is being asked is recognised by the number of input
tensors (2: part-of-speech tags, 3: dependency labels, 6: next transition), exactly what a real keras
functional model would enforce.  The sentence is recovered from the character tensor alone, so the stand-in
answers as a function of what it was really shown - as a trained network does - and never of who asked.
"""
import pickle

import numpy as np

from . import boot

SENT, WORD = 52, 22  # padded sentence / word length of the shipped networks
MAXW = 20
NB_TAGS, NB_DEPS, NB_TRANS = 17, 25, 4

TAGS = ['PAD', 'ADJ', 'PREP', 'ADV', 'MAT', 'CONJ', 'DET', 'EXPR', 'NOUN', 'NUM', 'FRAG', 'PRON', 'PROPN', 'PUNCT',
        'VERB', 'SYM', 'THERE']
DEPS = ['PAD', 'NODEP', 'ROOT', 'AND', 'ART', 'AUX', 'CALLEE', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'INTJ',
        'IOBJ', 'IPROP', 'MARK', 'MODAL', 'NEG', 'OBJ', 'OR', 'ORPHAN', 'PART', 'PROP', 'SPLIT', 'SUBJ']
TAG = {n: i for i, n in enumerate(TAGS)}
DEP = {n: i for i, n in enumerate(DEPS)}
LEFT, RIGHT, REDUCE, SHIFT = range(4)


class NetInputError(Exception):
    """What the network was shown is not a well-formed encoding of one sentence."""


_CODES = None


def char_codes():
    global _CODES
    if _CODES is None:
        with open(str(boot.REAL_DATA / 'models' / 'char_codes.pkl'), 'rb') as f:
            _CODES = pickle.load(f)
    return _CODES


def char_table():
    return {v: k for k, v in char_codes().items()}


class Net:

    def __init__(self, tag_fn, dep_fn, trans_fn, junk=0, log=None):
        self.tag_fn, self.dep_fn, self.trans_fn = tag_fn, dep_fn, trans_fn
        self.junk = junk  # what the networks "predict" on padding rows
        self.log = log
        self.calls = 0
        self.decode = char_table()
        self.codes = char_codes()
        self.begin, self.end = self.codes['†'], self.codes['‡']
        self.ss, self.es = self.codes['ʃ'], self.codes['ʄ']

    # what was the network shown?
    def tokens(self, mat):
        """mat: (52, 22) ints -> list of tokens (unknown characters come out as U+FFFD)"""
        mat = np.asarray(mat)
        if mat.shape != (SENT, WORD):
            raise NetInputError('character matrix has shape %s' % (mat.shape,))
        rows = []
        for r in mat.tolist():
            if r[0] != self.begin:
                if any(r):
                    raise NetInputError('row without begin-of-word mark: %s' % r)
                rows.append(None)
                continue
            n = WORD
            while n and r[n - 1] == 0:
                n -= 1
            if r[n - 1] != self.end:
                raise NetInputError('row without end-of-word mark: %s' % r)
            rows.append(''.join(self.decode.get(c, '\ufffd') for c in r[1:n - 1]))
        if rows[0] != 'ʃʃʃ':
            raise NetInputError('sentence does not start with the start mark: %r' % rows[:2])
        try:
            e = rows.index('ʄʄʄ')
        except ValueError:
            raise NetInputError('sentence has no end mark')
        if any(r is not None for r in rows[e + 1:]) or any(r is None for r in rows[:e]):
            raise NetInputError('rows outside the sentence')
        return rows[1:e]

    def predict(self, inputs):
        self.calls += 1
        arrs = [np.asarray(x) for x in inputs]
        if self.log is not None:
            self.log.append([a.copy() for a in arrs])
        n = len(arrs)
        if n == 2:
            return self._seq(arrs[0], [()] * len(arrs[0]), self.tag_fn, NB_TAGS)
        if n == 3:
            return self._seq(arrs[1], [(r.tolist(),) for r in arrs[0]], self.dep_fn, NB_DEPS)
        if n == 6:
            out = np.zeros((len(arrs[2]), NB_TRANS))
            for b in range(len(arrs[2])):
                toks = self.tokens(arrs[2][b])
                i, j = np.flatnonzero(arrs[4][b]), np.flatnonzero(arrs[5][b])
                if len(i) != 1 or len(j) != 1:
                    raise NetInputError('mask does not select exactly one position')
                t = self.trans_fn(toks, arrs[0][b].tolist(), arrs[1][b].tolist(), int(i[0]) - 1, int(j[0]) - 1)
                win = (0.2503, 0.28, 0.97)[int(i[0] + j[0]) % 3]  # by a hair, clearly, without doubt
                out[b] = (1 - win) / (NB_TRANS - 1)
                out[b][t] = win
            return out
        raise NetInputError('network called with %d inputs' % n)

    def _seq(self, chars, extra, fn, width):
        out = np.zeros((len(chars), SENT, width))
        for b in range(len(chars)):
            toks = self.tokens(chars[b])
            codes = fn(toks, *extra[b])
            # probabilities as a network gives them: no zeros, and the winner need not have a majority
            out[b] = 0.9 / width
            out[b, :, self.junk] = 1.1 / width
            for k, c in enumerate(codes):
                win = (1.1 / width, 1.002 / width, 0.98)[k % 3]
                out[b, k + 1] = (1 - win) / (width - 1)
                out[b, k + 1, c] = win
        return out
