"""Predicates, arguments and documents: every predicate over codes, words and polarities up to the maximal length, every history of reads."""
import itertools

from .. import boot
from ..core import exc_text

PROP = 'C31'
TITLE = 'Predicates read back'
RULE = 'every reading shows exactly the arguments put in; unknown codes are refused; documents list the predicates of their ' \
       'sentences in order; non-trivial: several arguments or sentences'
ASSUMES = ['positions outside the predicate are not judged']

ARG = ST = DOC = SENT = AVE = None
TAG = {'A': 'ADJ', 'L': 'ADJ', 'N': 'NOUN', 'P': 'NOUN', 'O': 'NOUN', 'S': 'NOUN', 'U': 'NOUN', 'T': 'VERB', 'I': 'VERB', 'R': 'VERB', 'C': 'VERB'}
CODES = sorted(TAG)
WORDS = ['cat', 'be', 'hot dog', '', 'not', 'NOT', 'a, b', '(x)', 'é ü', 'N', '42']


def setup():
    global ARG, ST, DOC, SENT, AVE
    boot.boot()
    from scrappybara.exceptions import ArgumentValueError
    from scrappybara.pipeline.document import Document
    from scrappybara.pipeline.sentence import Sentence
    from scrappybara.semantics.argument import Argument
    from scrappybara.semantics.semantic_tuple import SemanticTuple
    ARG, ST, DOC, SENT, AVE = Argument, SemanticTuple, Document, Sentence, ArgumentValueError


def BOUNDS(tier):
    return {'predicates': 'all predicates of 0..3 arguments over 11 codes and both polarities, of 4..5 over %d codes and both polarities; all words in every position of pairs and triples' % (3 if tier == 'quick' else 5),
            'arguments': 'all codes x %d words x polarity; every other single character up to U+017F and odd codes refused' % len(WORDS),
            'readings': 'length, iteration (repeated, nested), every index, code, code search over all codes, text with and without negation marks, read in two orders',
            'documents': 'all sequences of up to %d operations (new sentence, add predicate to any sentence, read) on two documents' % (5 if tier == 'quick' else 6)}


def chunks(tier):
    out = [('args', 0)]
    for c in CODES:
        for aff in (True, False):
            out.append(('short', c, aff))
    codes = 'NTC' if tier == 'quick' else 'NTCIA'
    for c in codes:
        for aff in (True, False):
            for c2 in codes:
                out.append(('long', c, aff, c2, codes))
    out.append(('words', 0))
    for k in range(8):
        out.append(('docs', k, 8, 5 if tier == 'quick' else 6))
    return out


def text(parts, marks):
    words = [('NOT ' if marks and not aff else '') + w for w, c, aff in parts]
    return ''.join(c for _, c, _ in parts) + '(' + ', '.join(words) + ')'


def check(parts, ctx):
    """parts: list of (word, code, affirmative)"""
    def body():
        args = [ARG(w, c, a) if i % 2 or not a else ARG(w, c) for i, (w, c, a) in enumerate(parts)]
        st = ST(*args)
        for rnd in range(2):
            if len(st) != len(parts):
                return 'len is %r' % len(st)
            seen = list(st)
            if len(seen) != len(args) or any(x is not y and (x.word, x.code, x.is_affirmative) != (y.word, y.code, y.is_affirmative) for x, y in zip(seen, args)):
                return 'iteration gives %r' % (seen,)
            if [(x.word, x.code, bool(x.is_affirmative)) for x in seen] != [tuple(p) for p in parts]:
                return 'iteration gives %r' % [(x.word, x.code, x.is_affirmative) for x in seen]
            if [[b.word for b in st] for _ in st] != [[p[0] for p in parts]] * len(parts):
                return 'a nested iteration differs'
            for i, p in enumerate(parts):
                a = st.arg(i)
                if (a.word, a.code, bool(a.is_affirmative), a.tag) != (p[0], p[1], p[2], TAG[p[1]]):
                    return 'arg(%d) is %r' % (i, (a.word, a.code, a.is_affirmative, a.tag))
                for marks in (True, False):
                    want = ('NOT ' if marks and not p[2] else '') + p[0]
                    if a.flatten(marks) != want or a.flatten(with_decorators=marks) != want:
                        return 'text of argument %d is %r' % (i, a.flatten(marks))
                if str(a) != a.flatten() or repr(a) != a.flatten(True) or a.flatten() != ('' if p[2] else 'NOT ') + p[0]:
                    return 'str of argument %d is %r' % (i, str(a))
            if st.code != ''.join(p[1] for p in parts):
                return 'code is %r' % st.code
            for c in CODES + ['', 'NT', 'n', 'Z']:
                if bool(st.has_any_arg_with_code(c)) != any(p[1] == c for p in parts):
                    return 'has_any_arg_with_code(%r) is wrong' % c
            if st.flatten(False) != text(parts, False) or st.flatten(with_decorators=False) != text(parts, False):
                return 'text without marks is %r' % st.flatten(False)
            for t in (st.flatten(), st.flatten(True), str(st), repr(st)):
                if t != text(parts, True):
                    return 'text is %r' % t
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


def one(parts, ctx):
    msg = check(parts, ctx)
    if msg:
        ctx.fail({'parts': [list(p) for p in parts]}, msg)
    else:
        ctx.done(tuple(parts), len(parts) > 1, {'parts': [list(p) for p in parts]})


def docs_history(ops, ctx):
    """ops: ('sent', d) new sentence in document d, ('st', d, k) predicate to the k-th sentence, ('read', d)"""
    def body():
        docs = [DOC(), DOC()]
        model = [[], []]
        n = 0

        def read(d):
            got = [s.flatten() for s in docs[d].stuples]
            want = [t for s in model[d] for t in s]
            if got != want:
                return 'document %d lists %r instead of %r' % (d, got, want)
            per = [[x.flatten() for x in s] for s in docs[d]]
            per2 = [[x.flatten() for x in s.stuples] for s in docs[d].sentences]
            if per != model[d] or per2 != model[d]:
                return 'document %d has sentences %r instead of %r' % (d, per, model[d])
            return None
        for op in ops:
            if op[0] == 'sent':
                docs[op[1]].sentences.append(SENT())
                model[op[1]].append([])
            elif op[0] == 'st':
                d, k = op[1], op[2]
                if k < len(model[d]):
                    n += 1
                    docs[d].sentences[k].stuples.append(ST(ARG('w%d' % n, 'N')))
                    model[d][k].append('N(w%d)' % n)
            elif op[0] == 'again':
                # a predicate that is already in the document, as the same object or as another one that reads the same
                d, k = op[1], op[2]
                have = [(a, b) for a in range(len(model[d])) for b in range(len(model[d][a]))]
                if have and k < len(model[d]):
                    a, b = have[-1]
                    text = model[d][a][b]
                    docs[d].sentences[k].stuples.append(docs[d].sentences[a].stuples[b] if op[3] else ST(ARG(text[2:-1], 'N')))
                    model[d][k].append(text)
            else:
                got = docs[op[1]].stuples
                msg = read(op[1])
                if msg:
                    return msg
                # a caller may do what they like with the list they got
                got.append(None) if isinstance(got, list) else None
        return read(0) or read(1)
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


OPS = [('sent', 0), ('sent', 1), ('st', 0, 0), ('st', 0, 1), ('st', 1, 0), ('read', 0), ('again', 0, 0, True), ('again', 0, 1, True), ('again', 0, 0, False)]


def run(chunk, ctx):
    kind = chunk[0]
    pol = (True, False)
    if kind == 'args':
        for w in WORDS:
            for c in CODES:
                for a in pol:
                    one([(w, c, a)], ctx)
        odd = [chr(i) for i in range(0, 0x180) if chr(i) not in TAG] + ['', 'NN', 'NT', 'ADJ', 'NOUN', 'n ', ' N', None, 1, 'ǁ']
        for c in odd:
            ok, r = ctx.call(ARG, 'w', c)
            ok2, r2 = ctx.call(lambda: ARG('w', c, is_affirmative=False))
            if ok or ok2 or not isinstance(r, AVE) or not isinstance(r2, AVE):
                ctx.fail({'code': c}, 'the unknown code %r was accepted or failed otherwise: %r' % (c, r if ok else exc_text(r)))
            else:
                ctx.done(('refused', c))
        one([], ctx)
    elif kind == 'short':
        first = [('w0', chunk[1], chunk[2])]
        rest = [(c, a) for c in CODES for a in pol]
        one(first, ctx)
        for c, a in rest:
            one(first + [('w1', c, a)], ctx)
            for c2, a2 in rest:
                one(first + [('w1', c, a), ('w2', c2, a2)], ctx)
    elif kind == 'long':
        _, c, aff, c2, codes = chunk
        opts = [(x, a) for x in codes for a in pol]
        for more in itertools.chain(itertools.product(opts, repeat=2), itertools.product(opts, repeat=3)):
            parts = [('w0', c, aff), ('w1', c2, True)] + [('w%d' % (i + 2), x, a) for i, (x, a) in enumerate(more)]
            one(parts, ctx)
    elif kind == 'words':
        for n in (2, 3):
            for ws in itertools.product(WORDS, repeat=n):
                one([(w, 'NTN'[i], i != 1) for i, w in enumerate(ws)], ctx)
    else:
        _, k, m, depth = chunk
        i = 0
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                i += 1
                if i % m != k:
                    continue
                msg = docs_history(ops, ctx)
                if msg:
                    ctx.fail({'ops': [list(o) for o in ops]}, msg)
                else:
                    ctx.done(ops, n > 2)


def replay(case):
    from ..core import Ctx
    setup()
    if 'parts' in case:
        return check([tuple(p) for p in case['parts']], Ctx())
    if 'ops' in case:
        return docs_history([tuple(o) for o in case['ops']], Ctx())
    ok, r = Ctx().call(ARG, 'w', case['code'])
    return None if not ok and isinstance(r, AVE) else 'accepted'
