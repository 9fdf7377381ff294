"""Links, smileys and 'n' come out in one piece, for every mix, number and repetition."""
import itertools

from .. import boot
from ..core import exc_text
from ..textref import boundaries

PROP = 'C02'
TITLE = 'Protected text'
RULE = 'every protected item between blanks must be exactly one token, the rest of the text is only required to be ' \
       'spelled out; non-trivial: the text holds a protected item'
ASSUMES = ['protected items stand between blanks', "'n' has an ordinary word on either side"]

LINKS = ['www.a.com', 'http://x.y/z', 'https://x.y', 'u.v/w', 'www.a.com/b?c=d&e=f', 'www.a.com.au', 'WWW.Ab.CoM',
         'http://x.y/z/(q);r,s:t', 'www.a.com?q=1', 'pic.tw.co/Q4u!', 'www.a-b.co/x.y', 'en.w.org/wiki/A_(b)', 'https://x.y:80/%20"k"', 'Http://X.Y/Z', 'bla.com/']
# generated links: every scheme x host x tail
SCHEMES = ['http://', 'https://', 'www.', 'HTTP://', 'HTTPS://', 'WWW.', 'Http://', 'Www.', 'hTTps://', 'https://www.', 'HTTP://WWW.', '']
HOSTS = ['a.com', 'x.y', 'A.COM', 'Ab.Co.Uk', 'a-b.co.uk', '1.2.3.4', 'x_y.io', 'n.t', "o'b.com", 'mr.x', 'd\u00e9j\u00e0.fr', 'abc.def.ghi.jkl']
TAILS = ['', '/', '/b', '/B/c.d', '?q=1', '?Q=A&b=C', '/?a=b&c=d;e', '#f', '/#F', ':80', ':8080/x', '/(q)', '/a,b;c!', "/it's", '/%20', '/a"b"',
         '/x:y', '/>=1', '/a|b', '/[1]', '/a+b', '/cannot', '/a*b', '/@me', '/~u', '/1,000', '/e.g', '/a:)', '/x=1?y', '/R&D', '/...x'.replace('...', '.'), '/-/--/_', '/Mr.X']
LINKS2 = [a + b + c for a in SCHEMES for b in HOSTS for c in TAILS if a or c.startswith('/')]
SMILEYS = [':)', ';)', ':-)', ';-)', ':(', ';(', ':-(', ';-(']
ANDS = ["'n'", "'N'", "'n", "n'", "N'"]
PROT = set(LINKS + LINKS2 + SMILEYS + ANDS)
WORDS = ['cat', 'Dog', 'no.', '(see', 'it)', 'yes,', "it's", '1', 'R', '&', '-', ':', '"a"', '>=', 'x:y', 'etc.', 'rock', 'Mr.', '?', 'can\'t']
ITEMS = LINKS + SMILEYS + WORDS
SEP = [' ', '  ', '\t', '\n', ' \u00a0', '\r\n', '\r', '\u2003', '     ']

T = None


def setup():
    global T
    boot.boot()
    from scrappybara.preprocessing.tokenizer import Tokenizer
    T = Tokenizer()


def BOUNDS(tier):
    return {'items': len(ITEMS), 'all sequences up to length': 3, "'n' forms": len(ANDS),
            "'n' contexts": 'every pair of neighbours, one or two of them',
            'repetition': 'every item 1..30 times; every pair alternated 12 times; all links together in every rotation',
            'generated links': '%d schemes x %d hosts x %d tails, alone, beside every item, in pairs' % (len(SCHEMES), len(HOSTS), len(TAILS)),
            'whitespace': len(SEP), 'length 4 over protected items': tier == 'thorough'}


def judge(items, sep=' '):
    text = sep.join(items)
    toks = T(text)
    joined, plain = ''.join(toks), ''.join(items)
    if joined != plain:
        return 'tokens %r do not spell out the text' % (toks,)
    cut = boundaries(toks)
    k = 0
    for it in items:
        if it in PROT:
            if k not in cut or k + len(it) not in cut or any(k < c < k + len(it) for c in cut):
                return '%r is not one token in %r' % (it, toks)
        k += len(it)
    return None


def replay(case):
    try:
        return judge(case['items'], case['sep'])
    except Exception as e:
        return exc_text(e)


def chunks(tier):
    out = [('and', i) for i in range(len(ANDS))]
    out += [('rep', 0), ('alt', 0), ('alt', 1), ('alt', 2), ('alt', 3), ('all', 0), ('seq', (), 1), ('seq', (), 2)]
    out += [('gen', i) for i in range(len(SCHEMES))]
    out += [('seq', (i,), 2) for i in range(len(ITEMS))]
    if tier == 'thorough':
        out += [('seq4', (i, j), 2) for i in range(len(LINKS + SMILEYS)) for j in range(len(ITEMS))]
    return out


def cases(chunk):
    kind = chunk[0]
    if kind in ('seq', 'seq4'):
        head = [ITEMS[i] for i in chunk[1]]
        for c in itertools.product(ITEMS, repeat=chunk[2]):
            items = head + list(c)
            if any(i in PROT for i in items):
                yield items, ' '
                if len(items) <= 2:
                    for s in SEP[1:]:
                        yield items, s
    elif kind == 'and':
        a = ANDS[chunk[1]]
        words = ['rock', 'Dog', 'ab', 'X']
        for l, r in itertools.product(ITEMS, repeat=2):
            for w in words:
                yield [w, a, w, l, r], ' '
                yield [l, w, a, w, r], ' '
                yield [w, a, w, a, w, l, a, w], ' '
                yield [w, a, a, a, l, a, r, a, w], ' '
            yield [l, a, r], ' '
    elif kind == 'gen':
        links = [a + b + c for a in SCHEMES[chunk[1]:chunk[1] + 1] for b in HOSTS for c in TAILS if a or c.startswith('/')]
        for n, x in enumerate(links):
            yield [x], ' '
            for w in ITEMS:
                yield [w, x], ' '
                yield [x, w], ' '
                yield [w, x, 'Dog', x], ' '
            for s in SEP:
                yield ['cat', x, 'Dog', ':)', x], s
            for m in (1, 2, 7, 40):
                y = links[(n + m) % len(links)]
                yield [x, y], ' '
                yield ['a', x, 'b', y, 'c', x], ' '
                yield ['cat', "'n'", 'Dog', x, "'n'", y, "'n'", 'X'], ' '
    elif kind == 'rep':
        for i in ITEMS:
            for k in range(1, 31):
                for s in SEP[:2]:
                    yield [i] * k + ['www.a.com'], s
                yield ['cat', i] * k + [':)'], ' '
                yield ['cat', "'n'", 'dog'] * k, ' '
        for k in (50, 101, 130):
            yield ['www.a%d.com' % j for j in range(k)], ' '
            yield ['x.y/%d' % j for j in range(k)], ' '
            yield ['x.y/%d' % (j % 7) for j in range(k)] + [':)'] * k, ' '
            yield [':)', ';('] * k, ' '
    elif kind == 'alt':
        for i in ITEMS[chunk[1]::4]:
            for j in ITEMS:
                yield [i, j] * 12 + ['www.a.com'], ' '
    elif kind == 'all':
        base = LINKS + SMILEYS
        for k in range(len(base)):
            rot = base[k:] + base[:k]
            yield rot, ' '
            yield rot + rot[::-1], ' '
            yield [w for x in rot for w in (x, 'Dog')], ' '
            yield [w for x in rot for w in ('cat', "'n'", 'dog', x)], ' '


def run(chunk, ctx):
    for items, sep in cases(chunk):
        ok, r = ctx.call(judge, items, sep)
        if not ok:
            r = exc_text(r)
        if r:
            ctx.fail({'items': items, 'sep': sep}, r)
        else:
            ctx.done((tuple(items), sep), nontrivial=True, sample=sep.join(items)[:120])
