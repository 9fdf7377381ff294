"""Tokenizing a text loses, invents and reorders nothing: all texts of up to k atoms, plus scaling families."""
import itertools

from .. import boot
from ..core import exc_text
from ..textref import judge_content

PROP = 'C01'
TITLE = 'Tokenizer content preservation'
RULE = 'concatenated tokens must equal the visible characters of the text up to the four named normalisations; no ' \
       'token empty or with whitespace; non-trivial: the text holds at least two tokens'
ASSUMES = ['texts do not contain the internal placeholder spellings', 'atoms represent their character classes']

ATOMS = list("aBn1.,:;?!'\"()[]{}<>=-+*/&%|\\…–—’”#@_$é\n\t ") + \
        [' ', 'can', 'cannot', "n't", "'s", "'re", 'www.a.com', 'http://x.y/z', 'u.v/w', ':-)', ';(', " 'n' ", " n' ", 'Mr.', 'etc',
         '>=', '= <', 'R & D', 'abc', '12', ' - ', "5'", '10"', 'e.g.', '...', '\u00a0']
SMALL = list("aB1.,:;?'\"()<=-+*/&%|–’ ") + ["'s", 'abc', 'www.a.com', 'u.v/w', ':)', " 'n' ", 'Mr.', '>=', 'R']
ASCII = [chr(c) for c in range(32, 127)] + ['\t', '\n']
# every character of Unicode that is not a surrogate, in these contexts
FRAMES = ['a%sb', 'Cat %s dog.', '%s', 'ab.%s X', '1%s2', "%s's", 'x(%s)', '%s%s%s', 'a%s %sb']
FRAMES_Q = FRAMES[:2] + FRAMES[4:6] + FRAMES[7:]
SYMBOLS = ".,:;?!'\"()[]{}<>=-+*/&%|\\\u2026\u2013\u2019_#@$~^`"
SIZES = [10000, 33000, 70000, 150000, 300000, 1100000]
SEPS = ['', ' ', '. ', ', ', '\n', ' x ']

T = None


def setup():
    global T
    boot.boot()
    from scrappybara.preprocessing.tokenizer import Tokenizer
    T = Tokenizer()


def BOUNDS(tier):
    return {'atoms': len(ATOMS), 'all products up to length': 3, 'reduced atoms': len(SMALL),
            'all strings of 3 of the printable ASCII characters, tab and line break': len(ASCII),
            'every Unicode character': 'in %d contexts' % len(FRAMES if tier == 'thorough' else FRAMES_Q),
            'reduced products of length': 4 if tier == 'thorough' else 'none (quick)',
            'one symbol': 'all strings of %d of a B 1 blank and each of %d symbols' % (6 if tier == 'quick' else 7, len(SYMBOLS)),
            'two symbols': 'all strings of %d of a 1 blank and each pair of symbols' % (5 if tier == 'quick' else 6),
            'length': 'texts of up to %d characters' % SIZES[-1],
            'repetition': 'every atom x 6 separators x 1..40 times; every pair of atoms alternated 6 and 13 times'}


def judge(text):
    toks = T(text)
    if not text:
        return None, toks
    return judge_content(text, toks), toks


def replay(case):
    try:
        return judge(case['text'])[0]
    except Exception as e:
        return exc_text(e)


def chunks(tier):
    out = [('size', k) for k in reversed(range(len(SIZES)))] + [('rep', i) for i in range(0, len(ATOMS), 8)]
    out += [('one', c, 6 if tier == 'quick' else 7) for c in SYMBOLS] + [('two', i, 5 if tier == 'quick' else 6) for i in range(len(SYMBOLS))]
    out += [('prod', (), 1), ('prod', (), 2)] + [('glued', k) for k in range(len(KEPT))]
    out += [('alt', i) for i in range(0, len(ATOMS), 4)]
    out += [('prod', (i,), 2) for i in range(len(ATOMS))]
    out += [('ascii', i) for i in range(0, len(ASCII), 3)]
    out += [('uni', lo, tier == 'thorough') for lo in list(range(0, 0x20000, 0x1000)) + [0xE0000]]
    if tier == 'thorough':
        out += [('uni', lo, True) for lo in range(0x20000, 0x110000, 0x1000) if lo != 0xE0000]
        out += [('small', (i, j), 2) for i in range(len(SMALL)) for j in range(len(SMALL))]
    return out


KEPT = [':)', ';-(', 'www.a.com/', 'http://b.org/x', "'n'"]


def texts(chunk):
    kind = chunk[0]
    if kind == 'glued':
        # many kept pieces, every one followed (and preceded) by what could be taken for its number
        for k in list(range(1, 26)) + [99, 101, 112]:
            row = [KEPT[(chunk[1] + i * (1 + k % 2)) % len(KEPT)] for i in range(k)]
            for tail in list('0123456789') + ['12', '_', 'a', ')', '01']:
                yield ' '.join(w + tail for w in row)
                yield 'x ' + ' '.join(row[:1] + [w + tail for w in row[1:2]] + row[2:]) + ' y'
                yield 'x ' + ' '.join([w + tail for w in row[:1]] + row[1:]) + ' y'
                yield ' '.join(tail + w for w in row)
        return
    if kind == 'prod':
        head = ''.join(ATOMS[i] for i in chunk[1])
        for c in itertools.product(ATOMS, repeat=chunk[2]):
            yield head + ''.join(c)
    elif kind == 'small':
        head = ''.join(SMALL[i] for i in chunk[1])
        for c in itertools.product(SMALL, repeat=chunk[2]):
            yield head + ''.join(c)
    elif kind == 'ascii':
        for a in ASCII[chunk[1]:chunk[1] + 3]:
            for b in ASCII:
                for c in ASCII:
                    yield a + b + c
    elif kind == 'one':
        for c in itertools.product(['a', 'B', '1', ' ', chunk[1]], repeat=chunk[2]):
            if chunk[1] in c:
                yield ''.join(c)
    elif kind == 'two':
        x = SYMBOLS[chunk[1]]
        for y in SYMBOLS[chunk[1] + 1:]:
            for c in itertools.product(['a', '1', ' ', x, y], repeat=chunk[2]):
                if x in c and y in c:
                    yield ''.join(c)
    elif kind == 'size':
        n = SIZES[chunk[1]]
        for unit in ("Cat sat on it's mat, 12.5 (ok). So? ", 'a' * 997 + ' ') if n < 10 ** 6 else ('Cat sat on the mat, 12 (ok). So? ',):
            yield (unit * (n // len(unit) + 1))[:n - 4] + ' end'
    elif kind == 'uni':
        for code in range(chunk[1], min(chunk[1] + 0x1000, 0x110000)):
            if 0xD800 <= code <= 0xDFFF:
                continue
            c = chr(code)
            for f in (FRAMES if chunk[2] else FRAMES_Q):
                yield f.replace('%s', c)
    elif kind == 'rep':
        for a in ATOMS[chunk[1]:chunk[1] + 8]:
            for s in SEPS:
                for k in range(1, 41):
                    yield s.join([a] * k)
                yield s.join([a] * 300)
                yield 'word ' + s.join([a] * 12) + ' Word.'
    elif kind == 'alt':
        for a in ATOMS[chunk[1]:chunk[1] + 4]:
            for b in ATOMS:
                for k in (6, 13):
                    yield ' '.join([a, b] * k)
                yield (a + b) * 12


def run(chunk, ctx):
    for text in texts(chunk):
        ok, r = ctx.call(judge, text)
        if not ok:
            ctx.fail({'text': text}, exc_text(r))
            continue
        msg, toks = r
        if msg:
            ctx.fail({'text': text}, msg)
        else:
            ctx.done(tuple(toks), nontrivial=len(toks) > 1, sample=text)
