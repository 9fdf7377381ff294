"""Splitting into sentences loses, invents and reorders nothing: all texts of up to k atoms, plus scaling families."""
import itertools

from .. import boot
from ..core import exc_text
from ..textref import judge_content

PROP = 'C05'
TITLE = 'Sentence splitter content preservation'
RULE = 'the tokens of all sentences concatenated must equal the visible characters of the text; with the standard ' \
       'tokenizer and with a user-supplied one; non-trivial: at least two sentences or a quoted/bracketed block'
ASSUMES = ['texts do not contain the reserved symbols of the splitter']

ATOMS = list('aB1.?!:;,"()\'\n\t ”') + ['Cat ', ' "', '" ', ' (', ') ', '."', '.)', ').', '?"', '""', '()', "'s", 'Mr. ', '. ', '... ', 'www.a.com ', ':) ', '\r\n', ' \n ', '[', '12', 'u.v/w ']
SMALL = ['a', 'Cat ', '.', '. ', '?', ':', '"', ' "', '(', ')', '."', '\n', ' ', ',', '1', '0 ']
TINY = ['a', '. ', '"', '(', ')', '\n', ' B']
ASCII = [chr(c) for c in range(32, 127)] + ['\t', '\n']
PAIR_FRAMES = ['%s', '"%s"', '(%s)', 'Go. "%s" Now', 'a (%s "b.") C', '%s "x', 'x) %s (y', '"a%sb" "c"']
RESERVED = '\u00b6\u0f3a\u0f3b\u2985\u2986'
UNI_FRAMES = ['I "%s" b.', '(%s) Go. B', 'a%s b? C']
S = SW = None


def plain_tokenizer(text):
    return text.split()


class CharTokenizer:
    """a tokenizer a user could write: cuts sentence enders, quotes and brackets off words"""

    def __call__(self, text):
        out = []
        for w in text.split():
            cur = ''
            for c in w:
                if c in '.?!:"()':
                    if cur:
                        out.append(cur)
                    out.append(c)
                    cur = ''
                else:
                    cur += c
            if cur:
                out.append(cur)
        return out


def setup():
    global S, SW
    boot.boot()
    from scrappybara.preprocessing.sentencizer import Sentencizer
    S = Sentencizer()
    SW = {'std': S, 'split': Sentencizer(plain_tokenizer), 'char': Sentencizer(CharTokenizer())}


def BOUNDS(tier):
    return {'atoms': len(ATOMS), 'all products up to length': 3, 'small atoms': len(SMALL), 'tiny atoms': len(TINY),
            'small products of length': 4 if tier == 'quick' else 5, 'tiny products of length': 5 if tier == 'quick' else 7,
            'inside brackets': 'all rows of up to %d of %d quotes, words and enders' % (4 if tier == 'quick' else 6, len(INNER)),
            'blocks': '0..130 quotes and/or brackets in one text, on one or many lines',
            'all pairs of the %d printable ASCII characters' % len(ASCII): 'in %d contexts' % len(PAIR_FRAMES),
            'every Unicode character (quick: below U+20000)': 'in %d contexts' % len(UNI_FRAMES),
            'length': 'texts of up to 1,100,000 characters',
            'tokenizers': list(('std', 'split', 'char'))}


def judge(text, which='std'):
    sents = SW[which](text)
    toks = [t for s in sents for t in s]
    if which == 'std':
        msg = judge_content(text, toks, empty_ok=True)
    else:
        want = ''.join(text.split())
        got = ''.join(toks)
        msg = None if got == want else 'tokens %r do not spell out the text' % (toks,)
    return msg, sents


def chunks(tier):
    out = [('size', 1100000), ('size', 300000), ('size', 70000)] + [('scale', k) for k in range(8)]
    out += [('nest', k, 3 if tier == 'quick' else 5) for k in range(len(INNER))]
    out += [('prod', (), 1), ('prod', (), 2)] + [('prod', (i,), 2) for i in range(len(ATOMS))]
    out += [('pair', i) for i in range(0, len(ASCII), 4)]
    out += [('uni', lo) for lo in list(range(0, 0x20000 if tier == 'quick' else 0x110000, 0x1000))]
    n, m = (2, 3) if tier == 'quick' else (3, 5)
    out += [('small', (i, j), n) for i in range(len(SMALL)) for j in range(len(SMALL))]
    out += [('tiny', (i, j), m) for i in range(len(TINY)) for j in range(len(TINY))]
    return out


BLOCKS = ['"Go."', '"a b"', '(see)', '(see "x.")', '"a (b) c"', '""', '()', '(a.)', '"Hi!"', '(it is "so" and "so")', '((a))', '"x. Y? Z"', '(a "b." c "d." e)']
INNER = ['"b."', '"b c"', 'so', 'Go.', '"It is?"', '!', '"']


def texts(chunk):
    kind = chunk[0]
    if kind in ('prod', 'small', 'tiny'):
        pool = {'prod': ATOMS, 'small': SMALL, 'tiny': TINY}[kind]
        head = ''.join(pool[i] for i in chunk[1])
        for c in itertools.product(pool, repeat=chunk[2]):
            yield head + ''.join(c), 'std'
        if len(chunk[1]) + chunk[2] <= 3 or kind == 'tiny':
            for c in itertools.product(pool, repeat=chunk[2]):
                yield head + ''.join(c), 'split'
                yield head + ''.join(c), 'char'
    elif kind == 'pair':
        for a in ASCII[chunk[1]:chunk[1] + 4]:
            for b in ASCII:
                for f in PAIR_FRAMES:
                    yield f.replace('%s', a + b), 'std'
    elif kind == 'uni':
        for code in range(chunk[1], chunk[1] + 0x1000):
            if not 0xD800 <= code <= 0xDFFF and chr(code) not in RESERVED:
                for f in UNI_FRAMES:
                    yield f.replace('%s', chr(code)), 'std'
    elif kind == 'size':
        for unit in ('Cat sat on "the mat." 12 (ok). So? ', 'Cat sat on the mat, it\'s (ok). So? \n'):
            if chunk[1] > 10 ** 6:
                unit = unit + ('cat' * 30 + ' ') * 9  # fewer pieces
            yield (unit * (chunk[1] // len(unit) + 1)) + ' end', 'std' if chunk[1] < 10 ** 6 else 'char'
    elif kind == 'nest':
        # brackets with every row of quotes, words and enders inside
        for n in range(chunk[2] + 1):
            for c in itertools.product(INNER, repeat=n):
                t = ' '.join((INNER[chunk[1]],) + c)
                yield 'I (%s) go. Ok' % t, 'std'
                if n < 4:
                    yield 'A (%s) (%s). B' % (t, t), 'std'
                    yield '(%s)' % t.replace(' ', ''), 'std'
                    yield 'A (%s) b' % t, 'char'
        if chunk[1] < 5:
            for k in (5, 6, 9, 10, 11, 12, 30, 101):
                yield 'I (%s) go. Ok' % ' '.join('n%d %s' % (i, INNER[chunk[1]]) for i in range(k)), 'std'
    elif kind == 'scale':
        for b in BLOCKS[chunk[1]::8]:
            for sep in (' ', ' and ', '. ', '\n', ''):
                for k in list(range(0, 25)) + [99, 101]:
                    for w in (('std', 'char') if k < 25 else ('std',)):
                        yield 'I said ' + sep.join([b] * k) + ' ok.', w
            for b2 in BLOCKS:
                for k in (2, 6, 11, 51):
                    for sep in (' ', '. A ', '\n'):
                        yield sep.join([b, b2] * k), 'std'
                    for w in ('std',):
                        yield ' '.join(['n%d %s m%d %s' % (i, b, i, b2) for i in range(k)]), 'std'


def run(chunk, ctx):
    for text, w in texts(chunk):
        ok, r = ctx.call(judge, text, w)
        if not ok:
            ctx.fail({'text': text, 'tokenizer': w}, exc_text(r))
            continue
        msg, sents = r
        if msg:
            ctx.fail({'text': text, 'tokenizer': w}, msg)
        else:
            ctx.done((w, sents), len(sents) > 1 or '"' in text or '(' in text, text[:100])


def replay(case):
    try:
        return judge(case['text'], case['tokenizer'])[0]
    except Exception as e:
        return exc_text(e)
