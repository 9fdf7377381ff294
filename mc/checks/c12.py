"""Encoding: what the networks are shown for every sentence length, word length, character and batch."""
import itertools

import numpy as np

from .. import boot, nets, parsefix
from ..core import exc_text

PROP = 'C12'
TITLE = 'Input encoding'
RULE = 'every tensor given to the networks equals an independent encoding of the sentence; tags/dependencies fed onwards are ' \
       'those answered for the same words; non-trivial: at least one word'
ASSUMES = ['the networks are an environment: their answers are functions of what they are shown',
           'what later networks are shown on padding rows is not judged']

P = T = None


def setup():
    parsefix.setup()


def BOUNDS(tier):
    return {'sentence lengths': '0..50, alone and every pair of lengths from a boundary set in one batch',
            'word lengths': '1..45 at first, middle and last position',
            'characters': 'all 100 supported ones and 12 unsupported ones, at first, last and cut positions of a word',
            'vectors': 'every known word in 4 letter cases, unknown words, known words with one of %d pieces before or after; vectors of large, small and negative numbers' % len(ADDED),
            'long words': 'of 21 to 70 characters with each of %d separators at 6 places' % len(SEPS),
            'answers': 'all 17 tags x all 25 dependencies per word position, 4 transitions',
            'many': '5 to 257 sentences of all lengths and 513 to 1100 short ones in one call',
            'batches': 'all sequences of up to %d sentences from 6, batch sizes 1..4, 1..3 threads' % (3 if tier == 'quick' else 4)}


def parser(procs, batch):
    from scrappybara.syntax.parser import Parser
    return Parser(procs, batch)


def tagger():
    from scrappybara.syntax.tagger import Tagger
    return Tagger()


UNK = ['é', 'Ж', '中', '\u200b', 'ß', '¿', '°', '½', '☺', 'ø', '\U0001F600', '“']


def chunks(tier):
    out = [('len', lo, lo + 6) for lo in range(0, 51, 6)]
    out += [('pairs', a) for a in (0, 1, 2, 25, 49, 50)]
    out += [('wlen', lo) for lo in range(1, 46, 9)]
    out += [('chars', k) for k in range(8)]
    out += [('words', 0)] + [('shapes', k) for k in range(8)] + [('many', n) for n in (5, 9, 17, 64, 129, 257)] + [('crowd', n) for n in (513, 600, 1025, 1100)]
    out += [('answers', k) for k in range(17)]
    out += [('batch', n, k) for n in range(1, (3 if tier == 'quick' else 4) + 1) for k in range(1, 5)]
    return out


SEPS = ['/', '-', '.', '_', ':', '@', '#', "'", '"', ',', '0', 'A', '?', '=', '\u00e9', '*', '//', '--', '.com', '+']
ADDED = SEPS + ['s', "'s", 'ed', 'ing', 'un', 're', '...', '1', 'ly', 'er', '(', ')', '%', '$', '&', '\u2019s', '\u2013', '!', ';', '|', '~', 'n', 'e', 'a']


SMALL = [['cat'], ['I', 'eat', '.'], ['the', 'Big', 'dog', 'run', "n't"], ['zzz'], ['I', 'eat', '.'], []]


def tag_of(k):
    return lambda toks: [1 + (len(t) * 3 + i + k) % 16 for i, t in enumerate(toks)]


def dep_of(k):
    return lambda toks, tags: [2 + (len(t) * 5 + i * 7 + k) % 23 for i, t in enumerate(toks)]


def judge(sents, procs, batch, ctx, tag_fn, dep_fn, trans_fn=None, use_tagger=False, junk=0):
    """Runs the real parser (or tagger) and compares all tensors. Returns message or None."""
    trans_fn = trans_fn or (lambda toks, tags, deps, i, j: nets.SHIFT)
    log = []
    boot.set_oracle(nets.Net(tag_fn, dep_fn, trans_fn, junk=junk, log=log))
    key = lambda chars: np.asarray(chars).astype(np.int64).tobytes()
    expect = {}
    for s in sents:
        expect[key(parsefix.ref_chars(s))] = s
    seen = [unknown(s) for s in sents]
    tags_want = [list(tag_fn(s)) for s in seen]
    given = [list(s) for s in sents]
    if use_tagger:
        ok, r = ctx.call(lambda: tagger().tag(given))
        got = r if ok else None
    else:
        ok, r = ctx.call(lambda: parser(procs, batch)(given))
        got = r[0] if ok else None
    if not ok:
        return exc_text(r)
    if given != [list(s) for s in sents]:
        return 'the caller\'s sentences were changed to %r' % (given,)
    got = [[t.name for t in ts] for ts in got]
    want = [[nets.TAGS[c] for c in ts] for ts in tags_want]
    if got != want:
        return 'tags %r instead of %r' % (got, want)
    shown = {2: [], 3: []}
    for arrs in log:
        n = len(arrs)
        chars, words = {2: (0, 1), 3: (1, 2), 6: (2, 3)}[n]
        for b in range(len(arrs[chars])):
            s = expect.get(key(arrs[chars][b]))
            if s is None:
                return 'a network was shown characters that encode none of the sentences: %r' % (arrs[chars][b][:len(sents[0]) + 2].tolist(),)
            w = arrs[words][b]
            if w.shape != (nets.SENT, parsefix.SIZE) or not np.array_equal(w.astype(np.float32), parsefix.ref_words(s)):
                return 'wrong word vectors for %r' % (s,)
            if n in shown:
                shown[n].append(tuple(s))
            if n > 2:
                tags = arrs[0][b].tolist()
                if len(tags) != nets.SENT or tags[1:len(s) + 1] != list(tag_fn(unknown(s))):
                    return 'wrong tags fed with %r: %r' % (s, tags)
            if n == 6:
                deps = arrs[1][b].tolist()
                if len(deps) != nets.SENT or deps[1:len(s) + 1] != list(dep_fn(unknown(s), tags)):
                    return 'wrong dependencies fed with %r: %r' % (s, deps)
    need = sorted(tuple(s) for s in sents)
    if sorted(shown[2]) != need or (not use_tagger and sorted(shown[3]) != need):
        return 'the networks were not asked exactly once about each sentence: %r' % (shown,)
    return None


def unknown(s):
    """The sentence as the stand-in reads it back (unsupported characters, cut words)"""
    known = nets.char_codes()
    return [''.join(c if c in known else '\ufffd' for c in t)[-20:] for t in s]


def case(ctx, sents, procs=1, batch=3, tag_fn=None, dep_fn=None, trans_fn=None, use_tagger=False, label=None, junk=0):
    msg = judge(sents, procs, batch, ctx, tag_fn or tag_of(0), dep_fn or dep_of(0), trans_fn, use_tagger, junk)
    if msg:
        ctx.fail({'sentences': sents, 'threads': procs, 'batch': batch, 'tagger': use_tagger, 'answers': label}, msg)
    else:
        ctx.done((repr(sents), procs, batch, use_tagger, label), any(sents), {'sentences': [s[:3] for s in sents]})


def sent(n):
    base = ['I', 'eat', 'the', 'Red', 'zorg', 'and', "n't", '.', 'supercalifragilistic', '!']
    return [base[i % len(base)] + ('' if i % 3 else chr(97 + i % 26)) for i in range(n)]


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'len':
        for n in range(chunk[1], min(chunk[2], 51)):
            for junk in (0, 5):
                case(ctx, [sent(n)], junk=junk, label=junk)
                case(ctx, [sent(n)], use_tagger=True, junk=junk, label=junk)
            case(ctx, [sent(n)], trans_fn=lambda t, a, b, i, j: nets.LEFT, label='LEFT')
    elif kind == 'pairs':
        for b in (0, 1, 2, 25, 49, 50):
            for size in (1, 2):
                for tg in (False, True):
                    case(ctx, [sent(chunk[1]), sent(b)[::-1]], batch=size, use_tagger=tg)
    elif kind == 'wlen':
        for n in range(chunk[1], chunk[1] + 9):
            w = ''.join(chr(97 + (i * 7) % 26) for i in range(n))
            for pos in range(3):
                s = ['cat', 'dog', 'x']
                s[pos] = w
                case(ctx, [s])
                s = list(s)
                s[pos] = w[:-1] + '!'  # code 0 in the shipped table
                case(ctx, [s], use_tagger=True)
    elif kind == 'chars':
        chars = sorted(nets.char_codes()) + UNK
        chars = [c for c in chars if c not in '†‡ʃʄ']
        for c in chars[chunk[1]::8]:
            for w in (c, c + 'ab', 'ab' + c, 'a' + c + 'b', c + c, 'q' * 18 + c, 'q' * 19 + c, c + 'q' * 19, c + 'q' * 20):
                case(ctx, [['cat', w]])
    elif kind == 'words':
        for w in parsefix.VOCAB:
            for v in {w, w.upper(), w.lower(), w.capitalize(), w + 's', w.swapcase()}:
                case(ctx, [[v]])
                case(ctx, [['zz', v]], use_tagger=True)
        for w in ('ʃʃʃ', 'ʄʄ', '†', '‡'):
            pass  # the network's own marks are outside the property
    elif kind == 'shapes':
        # known words inside longer ones: none of these is the known word
        known = ['cat', 'antidisestablishmentarian', "n't", 'x', 'caf\u00e9', '50', 'smith']
        for k, a in enumerate(ADDED):
            if k % 8 == chunk[1]:
                for w in known:
                    case(ctx, [[w + a, a + w], ['I', a + w + a, (w + a).upper(), w]], batch=2)
        # long words made of pieces
        letters = 'abcdefghijklmnopqrstuvwxyz' * 3
        for k, c in enumerate(SEPS):
            if k % 8 == chunk[1]:
                for n in (21, 22, 30, 45, 70):
                    for at in (1, 3, n - 20, n - 19, n - 10, n - 2):
                        case(ctx, [[letters[:at] + c + letters[at:n - 1], 'cat']])
                    case(ctx, [[(letters[:6] + c) * (n // 7) + 'zy']])
    elif kind == 'many':
        n = chunk[1]
        sents = [['s%d' % i] + sent(i % 50)[:i % 50] for i in range(n)]
        for procs, size in ((1, 128), (8, 128), (3, 7), (5, 1), (2, 64)):
            if n * 3 // size < 300:
                case(ctx, sents, procs, size, trans_fn=lambda t, a, b, i, j: nets.RIGHT)
        case(ctx, sents, use_tagger=True)
    elif kind == 'crowd':
        sents = [['s%d' % i] + sent(i % 3) for i in range(chunk[1])]
        case(ctx, sents, use_tagger=True)
        case(ctx, sents, 4, 64, trans_fn=lambda t, a, b, i, j: nets.RIGHT)
        case(ctx, sents, 3, 2048, trans_fn=lambda t, a, b, i, j: nets.RIGHT)
    elif kind == 'answers':
        k = chunk[1]
        for d in range(1, 25):
            case(ctx, [['I', 'eat', 'cat']], tag_fn=lambda t: [(k + i) % 17 for i in range(len(t))],
                 dep_fn=lambda t, tags: [(d + i) % 25 for i in range(len(t))], label=[k, d],
                 trans_fn=lambda t, a, b, i, j: (i + j + d) % 4)
            if d == 1:
                for n in (1, 2, 3, 20):
                    case(ctx, [sent(n)], tag_fn=lambda t: [(k + i) % 17 for i in range(len(t))], use_tagger=True, label=[k, n])
    elif kind == 'batch':
        _, n, size = chunk
        for sents in itertools.product(SMALL, repeat=n):
            if not all(parsefix.ref_chars(s).any() for s in sents):
                continue
            for procs in (1, 2, 3):
                case(ctx, [list(s) for s in sents], procs, size, trans_fn=lambda t, a, b, i, j: len(t) % 4)


def replay(c):
    from ..core import Ctx
    return judge(c['sentences'], c['threads'], c['batch'], Ctx(), tag_of(0), dep_of(0), None, c['tagger'])
