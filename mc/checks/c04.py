"""Clitics, punctuation and operators are cut off the same way everywhere: all sequences of units, all whitespace."""
import itertools

from .. import boot
from ..core import exc_text

PROP = 'C04'
TITLE = 'Compositional segmentation'
RULE = 'the tokens of a blank-separated sequence of units must be the concatenation of the tokens of the units; ' \
       'changing kind or amount of whitespace must not change the tokens'
ASSUMES = ['sequences in which a comparison sign could continue into the next unit are left out']

UNITS = {
    'cat': 'cat', 'Dog': 'Dog', 'USA': 'USA', '12': '12', 'a': 'a', 'the': 'the', 'well-known': 'well-known', 'B2B': 'B2B',
    # clitics
    "don't": "do n't", "it's": "it 's", "we're": "we 're", "he'll": "he 'll", "I've": "I 've", "I'm": "I 'm",
    "he'd": "he 'd", "CAN'T": "CA N'T", "John's": "John 's", "Dogs'": "Dogs '", "Isn't": "Is n't", "THEY'RE": "THEY 'RE",
    'cannot': 'can not', 'Cannot': 'Can not', 'CANNOT': 'CAN NOT', "'s": "'s", "n't": "n't",
    # brackets and quotes
    '(cat)': '( cat )', '[cat]': '[ cat ]', '{Dog}': '{ Dog }', '"cat"': '" cat "', '(the': '( the', 'Dog)': 'Dog )',
    '((cat))': '(( cat ))', '“cat”': '" cat "', '[12]': '[ 12 ]', 'f(x)': 'f ( x )', 'a[i]': 'a [ i ]',
    # separators
    'cat;Dog': 'cat ; Dog', 'cat?': 'cat ?', 'Dog!': 'Dog !', 'cat?!': 'cat ?!', 'Dog!!!': 'Dog !!!', 'a|b': 'a | b', 'a\\b': 'a \\ b',
    'cat=Dog': 'cat = Dog', 'cat;': 'cat ;', '|': '|', 'x{y}z': 'x { y } z', 'cat??Dog': 'cat ?? Dog', '…cat': '… cat',
    # commas
    'cat,': 'cat ,', 'cat,Dog': 'cat , Dog', '1,000': '1,000', '1,000,000': '1,000,000', '12,': '12 ,', 'cat,12': 'cat , 12',
    '12,cat': '12 , cat', ',': ',', 'a,b,c': 'a , b , c', "don't,": "do n't ,", '(1,000)': '( 1,000 )',
    # comparison signs
    '>=': '>=', '<=': '<=', '=>': '=>', '=<': '=<', 'x>=y': 'x >= y', 'x <= 12': 'x <= 12', '> =': '>=', 'x = > y': 'x => y',
    '12=<13': '12 =< 13', 'x > 12': 'x > 12', 'x<y': 'x < y', '< =': '<=', '= <': '=<',
    # feet and inches (not first)
    "5'": '5ft', '5\'10"': '5ft10in', '10"': '10in', '5.5"': '5.5in',
    # contraction of "and" (not first or last)
    "'n'": "'n'", "n'": "n'", 'www.a.com': 'www.a.com', ':)': ':)',
    # colon
    'cat:': 'cat :', 'that:this': 'that : this',
    # dashes
    'cat–Dog': 'cat - Dog', '—': '-', 'it’s': "it 's",
}
KEYS = list(UNITS)


def generated():
    """units generated class by class (only looked at between a few neighbours)"""
    g = {}
    wraps = [('', '', '', ''), ('(', ')', '( ', ' )'), ('[', ']', '[ ', ' ]'), ('{', '}', '{ ', ' }'), ('"', '"', '" ', ' "'), ('\u201c', '\u201d', '" ', ' "'),
             ('', ',', '', ' ,'), ('', ';', '', ' ;'), ('', '?', '', ' ?'), ('', '!', '', ' !'), ('', '?!', '', ' ?!'), ('', '...', '', ' ...'), ('', ':', '', ' :'),
             ('((', '))', '(( ', ' ))'), ('"(', ')"', '" ( ', ' ) "'), ('', '|', '', ' |'), ('', '=', '', ' ='), ('|', '', '| ', ''), ('=', '', '= ', ''),
             ('\\', '\\', '\\ ', ' \\'), ('', '),', '', ' ) ,'), ('', '",', '', ' " ,'), ('?', '', '? ', ''), ('!', '', '! ', ''), ('', ',cat', '', ' , cat'), ('', ';Dog', '', ' ; Dog')]
    clitics = ["n't", "'re", "'ll", "'ve", "'m", "'d", "'s"]
    hosts = ['do', 'is', 'We', 'he', 'I', 'they', 'John', 'DOG', 'could', 'x1', 'caf\u00e9', 'ai', 'children', 'U2', 'a', 'well-known', '1990']
    for h in hosts:
        for c in clitics:
            for cc in {c, c.upper(), c.capitalize(), c[:-1] + c[-1].upper()}:
                for q in "'\u2019\u2018\u2032":
                    if h == '1990' and not c.startswith('n'):
                        continue  # a foot mark
                    for a, b, ea, eb in (wraps if q == "'" and (h in ('do', 'John', 'x1') or h == 'they' and cc == c) else wraps[:1]):
                        g[a + h + cc.replace("'", q) + b] = ea + h + ' ' + cc + eb
    for w in ('cannot', 'Cannot', 'CANNOT', 'CanNot', 'cAnnot', 'canNOT'):
        for a, b, ea, eb in wraps:
            g[a + w + b] = ea + w[:3] + ' ' + w[3:] + eb
    words = ['cat', 'Dog', 'USA', 'a', 'X', '12', 'b2', 'caf\u00e9', 'well-known', 'e2e']
    signs = ['(', ')', '[', ']', '{', '}', '"', ';', '?', '!', '=', '|', '\\']
    for w in words:
        for c in signs:
            for k in (1, 2, 3):
                cc = c * k
                g[cc + w] = cc + ' ' + w
                if not (w[-1].isdigit() and c == '"'):
                    g[w + cc] = w + ' ' + cc
                    for v in words:
                        g[w + cc + v] = w + ' ' + cc + ' ' + v
            for d in signs if w in ('cat', 'X', 'b2') else ():
                if c == d or (c in '?!' and d in '?!') or (c == ';' and d in '()') or (w[-1].isdigit() and c == '"'):
                    continue
                g[w + c + d] = w + ' ' + c + ' ' + d
                g[c + d + w] = c + ' ' + d + ' ' + w
                g[w + c + d + 'Dog'] = w + ' ' + c + ' ' + d + ' Dog'
                g[w + c + 'a' + d] = w + ' ' + c + ' a ' + d
    # long runs of one sign
    for c in signs + ['\u2026']:
        for k in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 40):
            cc = c * k
            if k > 3 or c == '\u2026':
                g['cat' + cc] = 'cat ' + cc
                g[cc + 'Dog'] = cc + ' Dog'
                g['cat' + cc + 'Dog'] = 'cat ' + cc + ' Dog'
            g[cc] = cc
    nums = ['1', '12', '000', '007']
    for a in words + nums:
        g[a + ','] = a + ' ,'
        g[',' + a] = ', ' + a
        g[a + ',,'] = a + ' , ,'
        for b in words + nums:
            cut = '' if a[-1].isdigit() and b[0].isdigit() else ' '
            g[a + ',' + b] = a + cut + ',' + cut + b
            for c in ('cat', '12', '000'):
                cut2 = '' if b[-1].isdigit() and c[0].isdigit() else ' '
                g[a + ',' + b + ',' + c] = a + cut + ',' + cut + b + cut2 + ',' + cut2 + c
    for op in ('>=', '<=', '=>', '=<'):
        for a in ('x', '12', 'cat', 'Dog', 'B2'):
            for b in ('y', '13', 'Dog', 'cat'):
                for l in ('', ' '):
                    for m in ('', ' '):
                        for r in ('', ' '):
                            g[a + l + op[0] + m + op[1] + r + b] = a + ' ' + op + ' ' + b
        g['x%sy%sz' % (op, op)] = 'x %s y %s z' % (op, op)
        g['(x%sy)' % op] = '( x %s y )' % op
        g['x%s1,000' % op] = 'x %s 1,000' % op
    for n in ('5', '12', '100', '5.5', '1,000', '0', '1234', '12345', '123456', '1234567890', '12.75', '1,234.5', '3.14159265', '1,000,000', '000000000000', '9' * 30):
        for f in "'\u2019\u2032":
            g['%s%s' % (n, f)] = n + 'ft'
            for i in '"\u201d\u2033':
                for n2 in ('1', '10', '7.5'):
                    g['%s%s%s%s' % (n, f, n2, i)] = n + 'ft' + n2 + 'in'
        for i in '"\u201d\u2033':
            g['%s%s' % (n, i)] = n + 'in'
    return g


GEN = generated()
GENKEYS = list(GEN)
UNITS.update({k: v for k, v in GEN.items() if k not in UNITS})
CORE = ['cat', 'Dog', '12', "don't", "it's", 'cannot', "Dogs'", '(cat)', '"cat"', 'cat;Dog', 'cat?', 'cat,', '1,000', '12,', '>=',
        'x>=y', '= <', "5'", '5\'10"', 'cat:', 'a\\b', 'cat=Dog', "he'll", "'n'", ':)', '[12]', 'cat–Dog']
WS = [' ', '  ', '\t', '\n', '\r\n', '\n\n', ' \t ', '\u00a0', '\u2003 ', '\x0b', '\x0c']
# units whose tokens depend on their neighbours: only the whitespace between them is varied
LOOSE = ['cat.', 'Dog.', 'Mr.', 'mr.', 'U.S.', '5.', 'A.', '...', '3.5.', '.', '>', '=', '<', "'", "'x", '&', 'R', 'D', '-x', '*x', ':', "'n'", "'n", 'cat', 'Dog', '12', ',', '?', '.cat', '—', "'s", "5'", '%', '/', '+', ':x',
         ')', '"', 'www.a.com', 'e.g.', 'St.']
T = None


def setup():
    global T
    boot.boot()
    from scrappybara.preprocessing.tokenizer import Tokenizer
    T = Tokenizer()


def BOUNDS(tier):
    return {'units': len(KEYS), 'all sequences up to length': 3 if tier == 'thorough' else 2, 'core units': len(CORE),
            'core sequences of length': 4 if tier == 'thorough' else 3,
            'generated units': '%d, between %d pairs of neighbours' % (len(GENKEYS), (len(CORE) + 1) ** 2 if tier == 'thorough' else 24),
            'whitespace': '%d kinds at every gap of every pair of units, also leading and trailing' % len(WS),
            'loose units': '%d, in all sequences of 3, %d kinds of whitespace' % (len(LOOSE), len(WS)),
            'length': 'every unit repeated 2..30 times'}


def applicable(seq):
    if seq[0][0].isdigit() and seq[0][-1] in '\'"\u2019\u2032\u201d\u2033':
        return False
    if any(seq[k] in ("'n'", "n'") for k in (0, -1)):
        return False  # feet and inches are recognised after a blank
    for a, b in zip(seq, seq[1:]):
        if a[-1] in '<>=' and b[0] in '<>=':
            return False
        if a.endswith("'") and not a[0].isdigit() and b[0] in "'":
            return False
    if len(seq) > 1 and seq[0] in ("'s", "n't"):
        return True
    return True


def judge(seq, ws=' '):
    expect = ' '.join(UNITS[u] for u in seq).split()
    toks = T(ws.join(seq))
    if toks != expect:
        return 'tokens %r instead of %r' % (toks, expect)
    return None


def chunks(tier):
    out = [('seq', (), 1), ('rep', 0)]
    out += [('gen', i, tier == 'thorough') for i in range(0, len(GENKEYS), 120)]
    out += [('loose', i, tier == 'thorough') for i in range(len(LOOSE))]
    out += [('ws', i) for i in range(0, len(KEYS), 4)]
    if tier == 'thorough':
        out += [('seq', (i,), 2) for i in range(len(KEYS))] + [('core', (i, j), 2) for i in range(len(CORE)) for j in range(len(CORE))]
    else:
        out += [('seq', (i,), 1) for i in range(len(KEYS))] + [('core', (i,), 2) for i in range(len(CORE))]
    return out


def cases(chunk):
    kind = chunk[0]
    if kind in ('seq', 'core'):
        pool = KEYS if kind == 'seq' else CORE
        head = [pool[i] for i in chunk[1]]
        for c in itertools.product(pool, repeat=chunk[2]):
            seq = head + list(c)
            if applicable(seq):
                yield seq, ' '
    elif kind == 'gen':
        side = CORE + [None] if chunk[2] else ['cat', 'Dog', '12', "it's", '(cat)', 'cat,', 'cat?', None]
        for u in GENKEYS[chunk[1]:chunk[1] + 120]:
            for l in side:
                for r in (side if chunk[2] else ('cat', "it's", None)):
                    seq = [x for x in (l, u, r) if x]
                    if applicable(seq):
                        yield seq, ' '
            for v in GENKEYS[chunk[1] // 120::397]:
                seq = ['the', u, v, 'the']
                if applicable(seq):
                    yield seq, ' '
    elif kind == 'rep':
        for u in KEYS:
            for v in ('cat', 'Dog', '12'):
                for k in list(range(1, 14)) + [30, 100]:
                    seq = ['the'] + [u, v] * k
                    if applicable(seq):
                        yield seq, ' '
    elif kind == 'ws':
        for a in KEYS[chunk[1]:chunk[1] + 4]:
            for b in KEYS:
                seq = ['the', a, b, 'the']
                if applicable(seq):
                    for w in WS[1:]:
                        yield seq, w


def loose(seq, ws):
    a, b = T(' '.join(seq)), T(ws.join(seq))
    return None if a == b else 'with %r between the words: %r instead of %r' % (ws, b, a)


def run(chunk, ctx):
    if chunk[0] == 'loose':
        for c in itertools.product(LOOSE, repeat=2):
            seq = [LOOSE[chunk[1]]] + list(c)
            kinds = WS[1:] if chunk[2] else [WS[1 + (LOOSE.index(c[0]) + k) % (len(WS) - 1)] for k in (0, 3)] + ['  ']
            for ws in kinds:
                ok, r = ctx.call(loose, seq, ws)
                if not ok or r:
                    ctx.fail({'loose': seq, 'ws': ws}, r if ok else exc_text(r))
                else:
                    ctx.done((tuple(seq), ws), True)
        return
    for seq, ws in cases(chunk):
        ok, r = ctx.call(judge, seq, ws)
        if not ok:
            r = exc_text(r)
        if r:
            ctx.fail({'seq': seq, 'ws': ws}, r)
        else:
            ctx.done((tuple(seq), ws), True, ws.join(seq)[:100])
        if len(seq) <= 2 and chunk[0] != 'gen':
            for lead, trail in ((' ', ''), ('', '\n'), ('\t', ' \n')):
                ok, toks = ctx.call(T, lead + ws.join(seq) + trail)
                e = ' '.join(UNITS[u] for u in seq).split()
                if not ok or toks != e:
                    ctx.fail({'seq': seq, 'ws': ws, 'lead': lead, 'trail': trail}, '%r' % (toks,))
                else:
                    ctx.done((tuple(seq), lead, trail), False)


def replay(case):
    try:
        if 'loose' in case:
            return loose(case['loose'], case['ws'])
        if 'lead' in case:
            toks = T(case['lead'] + case['ws'].join(case['seq']) + case['trail'])
            return None if toks == ' '.join(UNITS[u] for u in case['seq']).split() else repr(toks)
        return judge(case['seq'], case['ws'])
    except Exception as e:
        return exc_text(e)
