"""Word and marking helpers: every word up to a length over an alphabet of letter kinds, every list of marked parts up to a length."""
import itertools

from .. import boot
from ..core import exc_text

PROP = 'C35'
TITLE = 'Taking words and marks apart'
RULE = 'a start is given exactly when the word ends so and the rest is long enough; prefix and base join to the word; marked parts read back in order; ' \
       'letter tests look at every character; non-trivial: something was taken apart'
ASSUMES = ['endings and prefixes are not empty', 'marked parts do not contain the marking symbols themselves', 'words asked for their first or last letter are not empty']

T = None
VOWELS = 'aeiouy'
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def setup():
    global T
    boot.boot()
    from scrappybara.utils import text
    T = text


def ref_start(word, ending, least):
    n = len(word) - len(ending)
    return word[:n] if n > 0 and n >= least and word[n:] == ending else None


def ref_prefix(word, prefixes):
    if word.count('-') == 1:
        i = word.index('-')
        return word[:i + 1], word[i + 1:]
    for x in prefixes:
        if word[:len(x)] == x:
            return x, word[len(x):]
    return None


def ref_double(word):
    if len(word) < 3 or word[-3] not in VOWELS or word[-2] != word[-1] or word[-1] not in LETTERS or word[-1] in VOWELS:
        return None
    return [word[-1], word[-1] * 2]


ALPHA = ['a', 'y', 's', 'E', '-', 'é']
ENDINGS = ['s', 'es', 'ys', 'a', 'say', 'ing', 'ss', '-s', 'és', 'ssssss']
PREFIXES = [['re', 'un'], ['s', 'sa'], ['sa', 's'], ['a', 'y', 's'], [], ('ya', 'y'), ['over', 'out', 'o'], ['yy-']]
WORDS = ['reopening', 'overs', 'outs', 'o', 'over', 'ov', 'unsay', 'un', 'u', 're-say', 're-', '-re', '-', '--', 're-un-say', 'a--s', 'stopped', 'occurred', 'agreeing', 'matter', 'buzz', 'odd',
         'egg', 'Egg', 'EGG', 'eGG', 'inn', 'ass', 'yss', 'shyy', 'see', 'seee', 'essay', 'bbb', 'abb', '1ss', 'a11', 'a--', 'ann', "a''", 'ñññ', 'aññ', 'éss', 'x' * 300 + 'ss', 'a' * 300, 'a' * 299 + 'ss',
         'ing', 'inging', 'singing', 'ssssss', 'sssssss', 'asssssss', 'a\n', 'ass\n', 'as s', ' as', 'as ', 'I', 'i', 'ß', 'ss\u0301', 'a_b', 'A1', 'ıı', 'İ', 'ſ', 'K', 'aK', 'a٣', 'À', 'Àb', 'ÀB', 'Z', 'z', 'Aa', 'aA', 'AzZ', '\ta', '9', 'Ω']


def words(tier):
    for n in range(0, (7 if tier == 'quick' else 8)):
        for w in itertools.product(ALPHA, repeat=n):
            yield ''.join(w)
    for w in WORDS:
        yield w
    for a in VOWELS + 'bEÉ':
        for b in LETTERS + 'Bé1':
            for c in (b, 's'):
                for head in ('', 't', 'sho'):
                    yield head + a + b + c
    for a in LETTERS + LETTERS.upper() + '0189áÉ\'_-. ':
        yield a
        for b in 'aZ':
            yield a + b
            yield b + a
            yield b + a + b


def word_msg(word, ctx):
    def body():
        for e in ENDINGS:
            for least in (0, 1, 2, 3, 4, 296, 300):
                got, want = T.token_start(word, e, least), ref_start(word, e, least)
                if got != want:
                    return 'the start of %r before %r with at least %d letters is %r, expected %r' % (word, e, least, got, want)
        for p in PREFIXES:
            got, want = T.token_prefix(word, p), ref_prefix(word, p)
            if (got if got is None else tuple(got)) != want:
                return 'the prefix of %r out of %r is %r, expected %r' % (word, p, got, want)
        got, want = T.vowel_double_consonant_endings(word), ref_double(word)
        if (got if got is None else list(got)) != want:
            return 'the endings of %r are %r, expected %r' % (word, got, want)
        tests = [('has_only_letters', word != '' and all(c in LETTERS or c in LETTERS.upper() for c in word)),
                 ('has_only_lowercase_letters', word != '' and all(c in LETTERS for c in word))]
        if word:
            tests += [('starts_with_uppercase_letter', word[0] in LETTERS.upper()), ('ends_with_consonant', word[-1] in LETTERS and word[-1] not in VOWELS)]
        for name, want in tests:
            f = getattr(T, name, None)
            if f is not None and bool(f(word)) != want:
                return '%s of %r is %r' % (name, word, f(word))
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


PARTS = [None, 'a', 'b', '', 'a b', 'é-1', 7, 'NULL', 'x' * 80]


def mark_msg(parts, ctx):
    shown = [str(p) for p in parts if p is not None]

    def body():
        if hasattr(T, 'associate') and hasattr(T, 'dissociate'):
            joined = T.associate(*parts)
            got = T.dissociate(joined)
            want = tuple(shown) if len(shown) == 2 else None
            if (got if got is None else tuple(got)) != want:
                return 'associating %r and taking it apart gives %r, expected %r' % (parts, got, want)
        if parts and parts[0] is not None and hasattr(T, 'attach_attributes') and hasattr(T, 'detach_attributes'):
            got = T.detach_attributes(T.attach_attributes(*parts))
            if list(got) != shown:
                return 'attaching %r and detaching gives %r, expected %r' % (parts, got, shown)
        if parts and parts[0] is not None and hasattr(T, 'functionalize') and hasattr(T, 'defunctionalize'):
            text = T.functionalize(*parts)
            if text != shown[0] + '(' + ', '.join(shown[1:]) + ')':
                return 'functionalizing %r gives %r' % (parts, text)
            got = T.defunctionalize(text)
            if tuple(got) != (shown[0], ', '.join(shown[1:])):
                return 'functionalizing %r and taking it apart gives %r' % (parts, got)
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


def length(tier):
    return 5 if tier == 'quick' else 6


def BOUNDS(tier):
    return {'words': 'every word of up to %d characters over %d kinds (vowel, y, consonant, capital, hyphen, accented), every vowel-letter-letter ending, %d special words' % (6 if tier == 'quick' else 7, len(ALPHA), len(WORDS)),
            'endings and prefixes': '%d endings x 7 least lengths, %d lists of prefixes' % (len(ENDINGS), len(PREFIXES)), 'marks': 'every list of up to %d parts over %d (missing, empty, number, long)' % (length(tier), len(PARTS))}


def chunks(tier):
    return [('words', tier, k, 8) for k in range(8)] + [('marks', length(tier), k, 8) for k in range(8)]


def run(chunk, ctx):
    kind, top, a, m = chunk
    if kind == 'words':
        for i, w in enumerate(words(top)):
            if i % m == a:
                msg = word_msg(w, ctx)
                if msg:
                    ctx.fail({'word': w}, msg)
                else:
                    ctx.done(('w', w), ref_double(w) is not None or any(ref_start(w, e, 0) for e in ENDINGS) or '-' in w, {'word': w})
    else:
        i = 0
        for n in range(top + 1):
            for parts in itertools.product(PARTS, repeat=n):
                i += 1
                if i % m == a:
                    msg = mark_msg(parts, ctx)
                    if msg:
                        ctx.fail({'parts': list(parts)}, msg)
                    else:
                        ctx.done(('m', parts), n > 1, {'parts': list(parts)})


def replay(case):
    from ..core import Ctx
    setup()
    return word_msg(case['word'], Ctx()) if 'word' in case else mark_msg(tuple(case['parts']), Ctx())
