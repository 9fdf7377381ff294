"""What "the same visible characters" means: a pattern that the concatenated tokens of a text have to match."""
import re

QUOTES = {'‘': "'", '’': "'", '′': "'", '“': '"', '”': '"', '″': '"'}
_DASH = re.compile('[–—]+')
_TABLE = {ord(k): v for k, v in QUOTES.items()}
_LETTER = re.compile('[A-Za-z]')


def content_pattern(text):
    """Regex for the concatenation of the tokens: the text without whitespace, with straight quotes and hyphens for long
    dashes; a foot/inch mark after a number may be spelled out; a run of stars between letters may be one star."""
    t = _DASH.sub(' - ', text)
    t = ''.join(QUOTES.get(c, c) for c in t)
    out = []
    i, n = 0, len(t)
    num = False  # does the run of digits, commas and periods before this character hold a digit?
    while i < n:
        c = t[i]
        if c.isspace():
            num = False
        elif c == '*':
            k = 1
            while i + k < n and t[i + k] == '*':
                k += 1
            prev, nxt = t[i - 1:i], t[i + k:i + k + 1]
            if k > 1 and (_LETTER.match(prev) or prev in ('"', "'") and prev) and _LETTER.match(nxt):
                out.append(r'(?:\*{%d}|\*)' % k)
            else:
                out.append(r'\*' * k)
            i += k
            num = False
            continue
        elif c == "'":
            out.append("(?:'|ft)" if num else "'")
            num = False
        elif c == '"':
            out.append('(?:"|in)' if num else '"')
            num = False
        else:
            out.append(re.escape(c))
            num = c.isdigit() or (num and c in ',.')
        i += 1
    return re.compile(''.join(out))


def judge_content(text, tokens, empty_ok=False):
    """None, or what is wrong with the tokens of this text"""
    joined = ''.join(tokens)
    plain = ''.join(_DASH.sub(' - ', text).translate(_TABLE).split())
    if joined != plain and not content_pattern(text).fullmatch(joined):
        return 'tokens %r do not spell out the text' % (tokens,)
    if not empty_ok:
        for t in tokens:
            if not t:
                return 'empty token in %r' % (tokens,)
    for t in tokens:
        if t and t.split() != [t]:
            return 'token %r contains whitespace' % (t,)
    return None


def boundaries(tokens):
    """Offsets (in the concatenation) at which tokens start, plus the end"""
    out, k = set(), 0
    for t in tokens:
        out.add(k)
        k += len(t)
    out.add(k)
    return out
