"""A period ends a word only where a sentence can end: all sequences of (word class, period, continuation)."""
import itertools
import re

from .. import boot
from ..core import exc_text

PROP = 'C03'
TITLE = 'Period handling'
RULE = 'the tokens must be exactly those of the rule table; non-trivial: the text has a period'
ASSUMES = ['units are separated by single blanks; every word class is represented by the words listed']

ABBR = ['m', 'mr', 'mrs', 'ms', 'sr', 'dr', 'prof', 'rev', 'gov', 'sen', 'rep', 'lt', 'sgt', 'ave', 'st', 'ed', 'feat']
PLAIN = ['cat', 'Dog', 'BLD', 'regt', 'etc', '1962', '4', '69th', 'domain.com', 'sub.dom.com', 'Xmr', 'drs']
LETTER = ['A', 'b']
SERIES = ['U.S', '3.5', 'e.g', '1.2', '10.20', 'A.B.C', 'i.e', 'a.m', 'U.S.A', 'P.M', '1.2.3', '10.20.30.40', '192.168.0.1', 'A.1', 'x.y.z.t.u', '1999.12']
PLAIN2 = ['caf\u00e9', 'well-known', 'AT&T', 'foo.bar.baz', 'foo.bar', 'a1', '1b', 'x2y', 'vs', 'No', 'inc', 'Corp', 'jr', 'Feats', 'amr', 'Edd', 'mrm', 'sted', 'i5',
          '007', '1,000', '100%', '#tag', '@me', '$5', 'I', 'ok', 'B2B', 'o-d', '_x_', 'th']
EMPH = ['cat', 'Dog', 'BLD', '69th', '1962', '12', '4', 'etc', 'A', 'z', 'U.S', '3.5', 'domain.com', 'foo.bar.baz', 'Mr', 'dr', 'ED', 'well-known', 'caf\u00e9', 'I']
LET = [chr(c) for c in range(97, 123)] + [chr(c) for c in range(65, 91)]
DIG = list('0123456789')
ABSUB = ['Mr', 'dr', 'ST', 'Ed']
RUNS = ['...', '....', '......', 'cat...', 'Dog....']
WS = ['  ', '\t', '\n', '\r\n', ' \n ', '\u00a0', '    ']
PUNCT = [',', ':', ';', '?', '!', '(', ')', '"', '?!', '??', '!!!']
T = None


def setup():
    global T
    boot.boot()
    from scrappybara.preprocessing.tokenizer import Tokenizer
    T = Tokenizer()


# a unit: (text as written, glued to the previous unit?)
def units(words):
    out = []
    for w in words:
        out.append((w, False))
        out.append((w + '.', False))
    return out


ALL_ABBR = sorted({f(a) for a in ABBR for f in (str.lower, str.capitalize, str.upper)})
BASE = units(PLAIN + LETTER + SERIES + ABSUB) + [(r, False) for r in RUNS] + [(p, g) for p in PUNCT for g in (True, False)]
MID = units(['cat', 'Dog', 'BLD', '4', 'A', 'U.S', '10.20', 'Mr', 'domain.com']) + [('...', False)] + \
    [(p, g) for p in (',', '?', ')', '"') for g in (True, False)]


def build(seq):
    """Returns the text and the expected tokens, or None where the table does not apply."""
    text = ''
    spans = []
    for w, glued in seq:
        if not text and glued:
            return None
        if text and not glued:
            text += ' '
        spans.append((len(text), w))
        text += w
    expect = []
    for n, (start, w) in enumerate(spans):
        rest = text[start + len(w):]
        m = re.fullmatch(r'([^.]*?)(\.{3,})', w)
        if m:
            # a run of periods
            if re.match(r' ?[.?!]', rest):
                return None  # next to another ender: not claimed
            expect += [x for x in m.groups() if x]
            continue
        if not w.endswith('.') or w in PUNCT:
            if w in ('?', '!', '?!', '??', '!!!') and n + 1 < len(seq) and seq[n + 1][1] and seq[n + 1][0][0] in '?!':
                return None  # would merge with the next
            if w and w[-1] == rest[:1] and w in PUNCT:
                return None
            if w == ':' and rest[:1] in ('(', ')') or w == ';' and rest[:1] in ('(', ')'):
                return None  # a smiley
            if w in (':', ';') and rest[:1] and not rest[:1].isspace():
                return None
            if w == '"' and n and re.match(r'\d', spans[n - 1][1]) and seq[n][1]:
                return None  # an inch mark
            expect += [w]
            continue
        base = w[:-1]
        if re.match(r' \d+\.', rest):
            return None  # a number with a period of its own: not claimed
        if re.search(r'[a-z]\.[A-Z]', base):
            return None  # may be a sentence end without blank: not claimed
        stay = bool(re.match(r' [a-z]| ?[,:;?!]| \d+\b', rest))
        if base.lower() in ABBR and re.match(r' [A-Za-z]', rest):
            stay = True
        if re.fullmatch('[A-Za-z]', base) or re.fullmatch(r'\w(\.\w)+|\d+(\.\d+)+', base):
            stay = True
        if re.match(r'\.', rest):
            return None
        expect += [w] if stay else [base, '.']
    return text, expect


def judge(seq, ws=' '):
    b = build(seq)
    if b is None:
        return None, None
    text, expect = b
    text = text.replace(' ', ws)
    toks = T(text)
    if toks != expect:
        return 'text %r gives %r instead of %r' % (text, toks, expect), toks
    return None, toks


def BOUNDS(tier):
    return {'units': len(BASE), 'all sequences up to length': 3, 'central units': len(MID),
            'central sequences up to length': 4 if tier == 'thorough' else 3, 'abbreviations': len(ALL_ABBR),
            'first characters': 'every letter and digit after a period, for %d words' % len(EMPH),
            'letters and numbers': 'every single letter, every series of two letters or digits, every number of two digits',
            'series': 'dotted series of 2..200 letters, numbers or words; words and numbers of up to 200 characters',
            'whitespace': '%d kinds between all pairs of units' % len(WS),
            'abbreviation contexts': 'every left and right neighbour; glued word.Word'}


def chunks(tier):
    out = [('first', i) for i in range(len(EMPH))] + [('let', i) for i in range(6)] + [('more', i) for i in range(8)] + [('seq', (), 1), ('seq', (), 2), ('abbr', 0), ('abbr', 1), ('abbr', 2), ('glue', 0), ('long', 0)] + [('series', k) for k in range(4)] + [('ws', k) for k in range(8)]
    out += [('seq', (i,), 2) for i in range(len(BASE))]
    if tier == 'thorough':
        out += [('mid', (i, j), 2) for i in range(len(MID)) for j in range(len(MID))]
    else:
        out += [('mid', (i,), 2) for i in range(len(MID))]
    return out


def cases(chunk):
    kind = chunk[0]
    if kind == 'seq':
        for c in itertools.product(BASE, repeat=chunk[2]):
            yield [BASE[i] for i in chunk[1]] + list(c)
    elif kind == 'mid':
        for c in itertools.product(MID, repeat=chunk[2]):
            yield [MID[i] for i in chunk[1]] + list(c)
    elif kind == 'abbr':
        left = [None, ('cat', False), ('Dog.', False), ('4', False), ('(', False)]
        for a in ALL_ABBR[chunk[1]::3]:
            for l in left:
                for r in BASE + [None]:
                    yield [x for x in (l, (a + '.', False), r) if x]
    elif kind == 'glue':
        pass
    elif kind == 'first':
        # every first letter or digit of the word after the period
        w = EMPH[chunk[1]]
        for l in (None, ('cat', False), ('Dog.', False), ('4', False)):
            for c in LET + DIG:
                for rest in ('', 'at', '12', 'X', '\u00e9', '-a'):
                    for last in (None, ('dog.', False), ('Cat.', False), (',', True)):
                        yield [x for x in (l, (w + '.', False), (c + rest, False), last) if x]
    elif kind == 'let':
        # every single letter, every series of two of them, every one- and two-digit number
        right = [None, ('Dog', False), ('cat', False), ('5', False), (',', True), ('(', False), (')', True), ('BLD.', False)]
        for a in (LET + DIG)[chunk[1]::6]:
            for l in (None, ('cat', False), ('Dog.', False)):
                for r in right:
                    yield [x for x in (l, (a + '.', False), r) if x]
                    for b in (LET + DIG):
                        if a.isdigit() == b.isdigit():
                            yield [x for x in (l, (a + '.' + b + '.', False), r) if x]
                        if a.isdigit() and b.isdigit():
                            yield [x for x in (l, (a + b + '.', False), r) if x]
    elif kind == 'more':
        words = PLAIN2 + SERIES + PLAIN + [a.capitalize() for a in ABBR]
        for a in words[chunk[1]::8]:
            for l in (None, ('cat', False), ('Dog.', False), ('(', False), ('4', False)):
                for r in BASE + units(PLAIN2) + [None]:
                    yield [x for x in (l, (a + '.', False), r) if x]
    elif kind == 'series':
        # series and words of every length
        right = [None, ('Dog', False), ('cat', False), ('5', False), (',', True), (')', True)]
        for k in list(range(2, 34)) + [50, 63, 64, 65, 100, 129, 200]:
            if k % 4 != chunk[1]:
                continue
            made = ['.'.join(('abcdefghij' * 20)[:k]), '.'.join(('ABCDEFGHIJ' * 20)[:k]), '.'.join(['12', '3', '456'][j % 3] for j in range(k)), '.'.join(['cat', 'dogs', 'x'][j % 3] for j in range(k)),
                    '1' * k + '.2', '2.' + '1' * k, '12' * k + '.' + '3' * k + '.4', '5.6.' + '78' * k, 'w' * k, 'W' * k, '7' * k, 'ab-' * k + 'c']
            for w in made:
                for l in (None, ('cat', False)):
                    for r in right:
                        yield [x for x in (l, (w + '.', False), r) if x]
                        yield [x for x in (l, (w, False), r) if x]
    elif kind == 'long':
        for u in BASE:
            for k in (5, 12, 40):
                yield [u, ('Dog', False)] * k
                yield [u, ('cat', False), ('Dog.', False)] * k


GLUE_L = ['new', 'regt', 'cat', 'it']
GLUE_R = ['Dog', 'Sentence', 'A', 'BLD', 'I']


def run(chunk, ctx):
    if chunk[0] == 'glue':
        for l, r in itertools.product(GLUE_L, GLUE_R):
            for pre, post in itertools.product(['', 'a ', 'Dog. ', '4 '], ['', ' cat', ' Dog', '. Dog', '.']):
                text = pre + l + '.' + r + post
                e = {'': [], 'a ': ['a'], 'Dog. ': ['Dog.'], '4 ': ['4']}[pre] + [l, '.', r]
                if post.startswith('.'):
                    e.append('.')
                e += post.replace('.', '').split()
                ok, toks = ctx.call(T, text)
                if not ok or toks != e:
                    ctx.fail({'text': text, 'expect': e}, '%r instead of %r' % (toks, e))
                else:
                    ctx.done(tuple(toks), True, text)
        return
    if chunk[0] == 'ws':
        for i, c in enumerate(itertools.product(BASE, repeat=2)):
            if i % 8 != chunk[1]:
                continue
            for ws in WS:
                seq = list(c)
                ok, r = ctx.call(judge, seq, ws)
                if not ok or r[0]:
                    ctx.fail({'seq': seq, 'ws': ws}, r[0] if ok else exc_text(r))
                elif r[1] is not None:
                    ctx.done(tuple(r[1]), True)
        return
    for seq in cases(chunk):
        ok, r = ctx.call(judge, seq)
        if not ok:
            ctx.fail({'seq': seq}, exc_text(r))
            continue
        msg, toks = r
        if msg:
            ctx.fail({'seq': seq}, msg)
        elif toks is not None:
            ctx.done(tuple(toks), any(w.endswith('.') for w, _ in seq), ' '.join(w for w, _ in seq))


def replay(case):
    try:
        if 'text' in case:
            toks = T(case['text'])
            return None if toks == case['expect'] else repr(toks)
        return judge([tuple(u) for u in case['seq']], case.get('ws', ' '))[0]
    except Exception as e:
        return exc_text(e)
