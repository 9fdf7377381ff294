"""Sentences end exactly at line breaks and enders outside quotes and brackets: all arrangements of units."""
import itertools

from .. import boot
from ..core import exc_text

PROP = 'C06'
TITLE = 'Sentence boundaries'
RULE = 'the token lists must be exactly those of the reference splitter; non-trivial: at least two sentences'
ASSUMES = ['words are chosen so that a period never belongs to an abbreviation', 'blocks are balanced and on one line']

# unit: (text, kind, tokens); kinds: w word, e ender, n newline, b block, q block whose last character is a period
W = [("it's", 'w', ['it', "'s"]), ('a.com/b', 'w', ['a.com/b']), ('10:30', 'w', ['10:30']), ('3.5', 'w', ['3.5']), ('Mr.', 'w', ['Mr.']), ('U.S.', 'w', ['U.S.']),
     ('[a]', 'w', ['[', 'a', ']']), (':-)', 'w', [':-)']), ('-', 'w', ['-']), ("'x'", 'w', ["'", 'x', "'"]), ('caf\u00e9', 'w', ['caf\u00e9']), ('cat', 'w', ['cat']), ('Dog', 'w', ['Dog']), ('it,', 'w', ['it', ',']), ('12;', 'w', ['12', ';'])]
E = [('Dog.', 'e', ['Dog', '.']), ('Cat?', 'e', ['Cat', '?']), ('!', 'e', ['!']), ('Cat:', 'e', ['Cat', ':']), ('cat?!', 'e', ['cat', '?!']), ('Dog ...', 'e', ['Dog', '...']), ('cat!!!', 'e', ['cat', '!!!']), ('it 5.', 'e', ['it', '5', '.']), ('?', 'e', ['?']), ('.', 'e', ['.']), (':', 'e', [':'])]
N = [('\n', 'n', []), ('\t', 'n', []), ('\r\n', 'n', []), (' \n \n ', 'n', []), ('\r', 'n', []), (' \t\t', 'n', []), ('\n\r', 'n', [])]
B = [('"cat"', 'b', ['"', 'cat', '"']),
     ('"Go. Now? Yes!"', 'b', '" Go . Now ? Yes ! "'.split()),
     ('(cat)', 'b', ['(', 'cat', ')']),
     ('(Go. Now: Yes!)', 'b', '( Go . Now : Yes ! )'.split()),
     ('"Go."', 'q', '" Go . "'.split()),
     ('"Stop! Go now."', 'q', '" Stop ! Go now . "'.split()),
     ('(see "Go. Now" Dog)', 'b', '( see " Go . Now " Dog )'.split()),
     ('(see "Go.")', 'b', '( see " Go . " )'.split()),
     ('"so (Go. Now) it"', 'b', '" so ( Go . Now ) it "'.split()),
     ('("a" "b." Dog)', 'b', '( " a " " b . " Dog )'.split()),
     ('"Go!"', 'b', '" Go ! "'.split()),
     ('"see (it)."', 'q', '" see ( it ) . "'.split()),
     ('"it\'s."', 'q', ['"', 'it', "'s", '.', '"']),
     ('"."', 'q', '" . "'.split()),
     ('"?"', 'b', '" ? "'.split()),
     ('"Go ..."', 'q', '" Go ... "'.split()),
     ('""', 'b', '" "'.split()),
     ('()', 'b', '( )'.split()),
     ('(.)', 'b', '( . )'.split()),
     ]
# 'b.' inside the nested block: a single letter keeps its period
B[9] = ('("a" "bc." Dog)', 'b', '( " a " " bc . " Dog )'.split())
UNITS = W + E + N + B
CORE = [next(u for u in W if u[0] == 'Dog'), E[0], E[1], E[3], N[0], N[1], B[1], B[3], B[4], B[7], B[6]]
DOG = next(i for i, u in enumerate(UNITS) if u[0] == 'Dog')
S = None
BLANK = [None]


class Blanks(object):
    """a user-supplied tokenizer: cuts at blanks only"""

    def __call__(self, text):
        return text.split()


def run_cases(k):
    """runs of enders: (text, sentences, last sentence, with the user-supplied tokenizer)"""
    runs = [''.join(c) for n in range(1, 6) for c in itertools.product('.?!:', repeat=n)]
    runs += [c * n for c in '.?!:' for n in (6, 7, 8, 9, 10, 12, 16, 17, 33, 64, 100)] + ['.?!:' * n for n in (2, 3, 5, 20)]
    for i, r in enumerate(runs):
        if i % 4 != k:
            continue
        yield 'cat %s Dog left' % r, 2, ['Dog', 'left'], True
        yield 'cat %s' % r, 1, None, True
        yield 'so "cat %s Go" it (so %s Go) it' % (r, r), 1, None, True
        for x in ('a', ',', '-', '5', ';', "'", '\u2026', '[', '/'):
            if len(r) < 4:
                yield 'cat %s Dog left' % (x + r), 1, None, True
                yield 'cat %s Dog left' % (r + x), 1, None, True
        # the usual tokenizer: runs without a colon, and no period before another mark
        if ':' not in r and (len(r) > 2 and set(r) == {'.'} or '.' not in r):
            yield 'cat %s Dog left' % r, 2, ['Dog', 'left'], False
            yield 'Cat%s Dog left' % r, 2, ['Dog', 'left'], False
            yield 'so "cat %s Go" it (so %s Go) it' % (r, r), 1, None, False


def setup():
    global S
    boot.boot()
    from scrappybara.preprocessing.sentencizer import Sentencizer
    S = Sentencizer()
    BLANK[0] = Sentencizer(Blanks())


def BOUNDS(tier):
    return {'units': len(UNITS), 'all sequences up to length': 4 if tier == 'thorough' else 3, 'core units': len(CORE),
            'core sequences of length': 5 if tier == 'thorough' else 4, 'gluing': 'units separated by a blank, or none after/before blocks',
            'runs of enders': 'every one of up to 5 marks, long ones, also with a user-supplied tokenizer that cuts at blanks only',
            'scale': '1..130 blocks in one text',
            'every Unicode character': 'as a word and at the end of a word (quick: below U+20000)', 'passages': 'of up to 15000 words',
            'characters': 'every printable character and %d others before the last period of a quote, before an ender inside and outside blocks' % len(OTHER)}


def build(seq, glue):
    """text and expected sentences"""
    text = ''
    prev = None
    for u, nxt in zip(seq, list(seq[1:]) + [None]):
        if u[0] == 'Mr.' and (nxt is None or nxt[1] != 'w' or not nxt[0][0].isalnum() or '/' in nxt[0]):
            return None  # an abbreviation ends nothing before a word; elsewhere it is not claimed
        if prev is not None and prev[1] != 'n' and u[1] != 'n':
            # a period must be followed by a capital, a block or the end to end a sentence
            if prev[0][-1] == '.' and prev[1] in 'e' and (u[0][0].islower() or u[0][0].isdigit() or u[0][0] in ',:;?!'):
                return None
            if prev[0].endswith('...') and u[0][0] in '.?!:':
                return None
            if prev[0][-1] in ':;' and u[0][0] in '()' and glue:
                return None  # a smiley
            if glue and not (prev[1] in 'bq' or u[1] in 'bq'):
                text += ' '
            elif glue and prev[1] in 'bq' and u[1] in 'bq' and prev[0][-1] == u[0][0]:
                text += ' '
            elif glue and u[0][0] == '"' and prev[0][-1] in '."0123456789':
                text += ' '
            elif not glue:
                text += ' '
        text += u[0]
        prev = u
    sents, cur = [], []
    lines = [[]]
    for u in seq:
        if u[1] == 'n':
            lines.append([])
        else:
            lines[-1].append(u)
    for line in lines:
        cur = []
        for u in line:
            cur = cur + u[2]
            if u[1] in 'eq':
                sents.append(cur)
                cur = []
        if cur:
            sents.append(cur)
    return text, sents


def clean(sents):
    out = [[t for t in s if t != ''] for s in sents]
    return [s for s in out if s]


def judge(seq, glue):
    b = build(seq, glue)
    if b is None:
        return None, None
    text, expect = b
    got = clean(S(text))
    if [''.join(g) for g in got] != [''.join(e) for e in expect]:  # how a sentence is cut in tokens is C01 to C04
        return 'text %r gives %r instead of %r' % (text, got, expect), got
    return None, got


OTHER = ['\u00e9', '\u4e2d', '\u20ac', '\u2026', 'ab', '10', 'U.S', "n't", '5%', '[x]', '- ', '\u2019', 'www.a.com/b', "'s", 'a b c d e', '3.5']
PRINT = [chr(c) for c in range(33, 127) if chr(c) not in '"()'] + OTHER


def char_cases(x):
    """(text, number of sentences, last sentence or None)"""
    yield 'he "go %s." She left' % x, 2, ['She', 'left']
    yield 'he "%s." She left' % x, 2, ['She', 'left']
    yield 'he "go %s ." She left' % x, 2, ['She', 'left']
    yield 'so "it %s? Go. Now" it' % x, 1, None
    yield 'so (it %s? Go. Now) it' % x, 1, None
    if x != '.':
        yield 'so (it %s) it "%s" it' % (x, x), 1, None
    yield 'so "it %s! Go: %s. Now" (so %s! Go) it' % (x, x, x), 1, None
    if x not in '.?!:' and x != '\u2026':
        if '/' not in x or x == '/':
            yield 'cat %s? She left' % x, 2, ['She', 'left']
        yield 'cat %s ! She left' % x, 2, ['She', 'left']
        yield 'cat %s\nShe left' % x, 2, ['She', 'left']
        yield 'cat %s she' % x, 1, None
        yield 'cat %s "Go." She left' % x, 2, ['She', 'left']
        yield '(it) %s (Go. Now) %s she' % (x, x), 1, None


def char_judge(case):
    text, n, last = case[:3]
    got = clean((BLANK[0] if case[3:] and case[3] else S)(text))
    if len(got) != n or last is not None and got[-1] != last:
        return 'text %r gives %r, expected %d sentences%s' % (text, got, n, ', the last one %r' % last if last else ''), got
    return None, got


def uni_ok(c):
    return c not in '.?!:\t\n\r\u00b6\u0f3a\u0f3b\u2985\u2986' and not 0xD800 <= ord(c) <= 0xDFFF


def chunks(tier):
    out = [('uni', lo) for lo in range(0, 0x20000 if tier == 'quick' else 0x110000, 0x1000)] + [('blocks', k) for k in range(4)] + [('runs', k) for k in range(4)]
    out += [('chars', 0), ('seq', (), 1), ('seq', (), 2), ('scale', 0), ('scale', 1), ('scale', 2), ('scale', 3)]
    if tier == 'thorough':
        out += [('seq', (i, j), 2) for i in range(len(UNITS)) for j in range(len(UNITS))]
        out += [('core', (i, j), 3) for i in range(len(CORE)) for j in range(len(CORE))]
    else:
        out += [('seq', (i,), 2) for i in range(len(UNITS))]
        out += [('core', (i, j), 2) for i in range(len(CORE)) for j in range(len(CORE))]
    return out


def cases(chunk):
    kind = chunk[0]
    if kind in ('seq', 'core'):
        pool = UNITS if kind == 'seq' else CORE
        base = 0 if kind == 'seq' else 100
        for c in itertools.product(range(len(pool)), repeat=chunk[2]):
            for glue in (False, True):
                yield [base + i for i in chunk[1]] + [base + i for i in c], glue
    else:
        for i in range(len(UNITS))[chunk[1]::4]:
            for j in range(len(UNITS)):
                for k in (4, 11, 40):
                    yield [i, DOG, j] * k, False
            for k in range(1, 131, 3):
                yield [DOG, i] * k, False


def units_of(idxs):
    return [UNITS[i] if i < 100 else CORE[i - 100] for i in idxs]


def block_cases(k):
    # passages of every length, with enders inside
    for n in list(range(1, 60)) + [100, 127, 128, 129, 199, 255, 256, 257, 300, 400, 512, 1000, 1025, 2000, 5000]:
        if n % 4 != k:
            continue
        for o, c in ('""', '()'):
            for filler in ('Go? ', 'so Go! It: ', 'x', 'Now; '):
                inner = (filler * n).strip()
                yield 'he %sso %s it%s and' % (o, inner, c), 1, None
                yield 'he (a) %sso %s it%s "b" (c). She left' % (o, inner, c), 2, ['She', 'left']
        yield 'he "so %s it." She left' % ('Go? ' * n), 2, ['She', 'left']
        yield '%s Dog? She left' % ('cat ' * n), 2, ['She', 'left']
        yield '%s Dog\nShe left' % ('cat' * n), 2, ['She', 'left']


def uni_cases(lo):
    for code in range(lo, lo + 0x1000):
        c = chr(code)
        if uni_ok(c):
            yield 'cat %s Dog left' % c, 1, None
            yield 'Cat%s Dog left' % c, 1, None


def run(chunk, ctx):
    if chunk[0] in ('chars', 'uni', 'blocks', 'runs'):
        lists = {'chars': lambda: (c for x in PRINT for c in char_cases(x)), 'uni': lambda: uni_cases(chunk[1]), 'blocks': lambda: block_cases(chunk[1]), 'runs': lambda: run_cases(chunk[1])}
        for case in lists[chunk[0]]():
            ok, r = ctx.call(char_judge, case)
            if not ok or r[0]:
                ctx.fail({'chars': list(case)}, r[0] if ok else exc_text(r))
            else:
                ctx.done(r[1], len(r[1]) > 1)
        return
    for idxs, glue in cases(chunk):
        seq = units_of(idxs)
        ok, r = ctx.call(judge, seq, glue)
        if not ok:
            ctx.fail({'units': idxs, 'glue': glue}, exc_text(r))
            continue
        msg, got = r
        if msg:
            ctx.fail({'units': idxs, 'glue': glue}, msg)
        elif got is not None:
            ctx.done(got, len(got) > 1, build(seq, glue)[0][:100])


def replay(case):
    try:
        if 'chars' in case:
            return char_judge(tuple(case['chars']))[0]
        return judge(units_of(case['units']), case['glue'])[0]
    except Exception as e:
        return exc_text(e)
