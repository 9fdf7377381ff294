"""Decoding: every sequence of transition answers for every labelling of small sentences, alone and in batches."""
import itertools

from .. import boot, nets, parsefix
from ..core import exc_text

PROP = 'C13'
TITLE = 'Decoding of arbitrary network answers'
RULE = 'result equals an independent arc-eager decoder; one parent per word, acyclic, projective, labels those predicted; ' \
       'non-trivial: a tree is returned'
ASSUMES = ['answers depend on the sentence and the two words asked about, as a deterministic network\'s do']

P = {}


def setup():
    parsefix.setup()
    from scrappybara.syntax.parser import Parser
    for procs, batch in itertools.product((1, 2, 3), (1, 2, 3, 128)):
        P[procs, batch] = Parser(procs, batch)


def BOUNDS(tier):
    n = 6 if tier == 'quick' else 7
    return {'transitions': 'all answer sequences for sentences of 1..%d words' % n,
            'labels': 'all placements of NODEP and ROOT among 1..%d words; each of the 25 labels at each position of 3 words; no ROOT, several ROOTs' % (4 if tier == 'quick' else 5),
            'batches': 'all pairs and triples of answer patterns for sentences of different lengths, batch sizes 1, 2, 3, 128, 1..3 threads',
            'many': '4 to 260 sentences of 1 to 11 words in one call, 1000 to %d short ones' % (2055 if tier == 'quick' else 10001),
            'periodic': 'sentences of 14 and 50 words (thorough: three more): one answer, then a repeated pair of answers, with one deviation anywhere (50 words: at every third position)',
            'long': 'sentences of 49 and 50 words with every constant and alternating answer pattern and with heads at regular distances (up to 97 transitions)'}


def chunks(tier):
    out = []
    top = 6 if tier == 'quick' else 7
    for n in range(1, top + 1):
        out += [('seq', n, k) for k in range(4 if n >= 4 else 1)] if n < 6 else [('seq', n, k) for k in range(16)]
    for n in range(1, (4 if tier == 'quick' else 5) + 1):
        out += [('labels', n, k) for k in range(3)]
    out += [('alllabels', k) for k in range(5)]
    out += [('batch', 2, b) for b in (1, 2, 3, 128)] + [('batch', 3, b) for b in (1, 2, 3)]
    out += [('long', 0)] + [('many', n, k) for n in (4, 7, 64, 127, 128, 129, 260) for k in range(2)]
    out += [('many', n, 2) for n in ((1000, 1001, 2055) if tier == 'quick' else (1000, 1001, 2055, 4099, 10001))]
    out += [('periodic', n, s) for n in ((14, 50) if tier == 'quick' else (14, 20, 33, 49, 50)) for s in range(5)]
    return out


class Script:
    """Enumerates answers on demand: a fixed prefix of choices, then 0"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.asked = []

    def __call__(self, *a):
        k = len(self.asked)
        self.asked.append(a[-2:])
        return self.prefix[k] if k < len(self.prefix) else 0


def expect(sent, deps, answers):
    """answers: list of transitions in the order of questions"""
    it = iter(answers)
    asked = []

    def answer(i, j):
        asked.append((i, j))
        return next(it)
    return parsefix.ref_decode(deps, answer), asked


def compare(tree, want, n):
    if want is None:
        return None if tree is None else 'a tree %r although no two words are linked' % parsefix.links_of(tree)
    if tree is None:
        return 'no tree instead of %r' % (want,)
    try:
        links = parsefix.links_of(tree)
    except AssertionError as e:
        return str(e)
    root, wlinks = want
    if links != wlinks:
        return 'links %r instead of %r' % (links, wlinks)
    if tree.root != root:
        return 'root %r instead of %r' % (tree.root, root)
    if tree.parent(root) is not None:
        return 'the root has a parent'
    for c, (l, p) in links.items():
        lab, par = tree.parent(c)
        if (lab.name, par) != (l, p):
            return 'parent(%d) is %r' % (c, (lab, par))
        if sum(ch == c for h in range(n) for _, ch in tree.children(h)) != 1:
            return 'word %d is not the child of exactly one word' % c
    if not parsefix.acyclic(links) or not parsefix.projective(links):
        return 'not an acyclic, projective structure: %r' % links
    return None


def sentence(n, tag='w'):
    return ['%s%d' % (tag, i) for i in range(n)]


def one(ctx, n, deps, prefix):
    """One sentence, answers given in order. Returns the questions asked."""
    script = Script(prefix)
    sent = sentence(n)
    boot.set_oracle(nets.Net(lambda t: [1 + i % 16 for i in range(n)], lambda t, tags: [nets.DEP[d] for d in deps], script))
    ok, r = ctx.call(P[1, 2], [sent])
    case = {'n': n, 'deps': deps, 'answers': list(prefix)}
    if not ok:
        ctx.fail(case, exc_text(r))
        return script.asked
    ctx.steps += len(script.asked)
    tags, trees = r
    answers = [prefix[k] if k < len(prefix) else 0 for k in range(len(script.asked))]
    msg = None
    try:
        want, asked = expect(sent, deps, answers + [0] * 60)
    except StopIteration:
        want, asked = None, []
    if len(tags) != 1 or len(trees) != 1 or [t.value for t in tags[0]] != [1 + i % 16 for i in range(n)]:
        msg = 'tags %r, %d trees' % (tags, len(trees))
    elif asked != script.asked:
        msg = 'the network was asked about %r instead of %r' % (script.asked, asked)
    else:
        msg = compare(trees[0], want, n)
    if msg:
        ctx.fail(case, msg)
    else:
        ctx.done((tuple(deps), tuple(answers)), want is not None, case)
    return script.asked


def all_answers(ctx, n, deps, first=None, total=None):
    """Depth-first over all answer sequences, without repeating one."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        asked = one(ctx, n, deps, prefix)
        # children: change exactly one later answer from the default 0
        for pos in range(len(prefix), len(asked)):
            for t in (1, 2, 3):
                stack.append(prefix + [0] * (pos - len(prefix)) + [t])


def answers_part(ctx, n, deps, part, parts):
    """Same, restricted to the sequences whose first answers are number `part`"""
    depth = 1 if parts == 4 else 2
    first = [part % 4] if depth == 1 else [part // 4, part % 4]
    stack = [first]
    while stack:
        prefix = stack.pop()
        asked = one(ctx, n, deps, prefix)
        for pos in range(len(prefix), len(asked)):
            for t in (1, 2, 3):
                stack.append(prefix + [0] * (pos - len(prefix)) + [t])


BASE = ['SUBJ', 'ROOT', 'OBJ', 'CPL', 'AND', 'ART', 'NEG', 'PART']


def pattern(kind):
    if isinstance(kind, int):
        return lambda i, j: kind
    a, b = kind[:2]
    if a == 'star':  # dependents of every b-th word are linked to it and popped: many transitions
        return lambda i, j: 1 if i % b == 0 else 2
    if a == 'late':  # everything waits for every b-th word
        return lambda i, j: 0 if j % b == 0 else 3
    if a == 'zigzag':
        return lambda i, j: (1 if i < b else 2) if j % 2 else (3 if i < b else 0)
    return lambda i, j: a if (i + j) % 2 else b


def batch(ctx, sents, deps, pats, size, procs):
    table = {tuple(s): k for k, s in enumerate(sents)}

    def trans(toks, tg, dp, i, j):
        return pats[table[tuple(toks)]](i, j)
    boot.set_oracle(nets.Net(lambda t: [1 + (i + len(t)) % 16 for i in range(len(t))],
                             lambda t, tags: [nets.DEP[d] for d in deps[table[tuple(t)]]], trans))
    return ctx.call(P[procs, size], [list(s) for s in sents])


def judge_batch(ctx, sents, deps, pats, names, size, procs):
    ok, r = batch(ctx, sents, deps, pats, size, procs)
    case = {'sentences': sents, 'deps': deps, 'answers': names, 'batch': size, 'threads': procs}
    if not ok:
        ctx.fail(case, exc_text(r))
        return
    tags, trees = r
    msg = None
    if len(tags) != len(sents) or len(trees) != len(sents):
        msg = '%d tag lists and %d trees for %d sentences' % (len(tags), len(trees), len(sents))
    wants = []
    for k, s in enumerate(sents):
        if msg:
            break
        if [t.value for t in tags[k]] != [1 + (i + len(s)) % 16 for i in range(len(s))]:
            msg = 'sentence %d has tags %r' % (k, tags[k])
            break
        want = parsefix.ref_decode(deps[k], pats[k])
        wants.append(want)
        msg = compare(trees[k], want, len(s))
        if msg:
            msg = 'sentence %d: %s' % (k, msg)
    if msg:
        ctx.fail(case, msg)
    else:
        ctx.done((repr(case),), any(wants), case)


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'seq':
        n, k = chunk[1:]
        for deps in ([BASE[:n]] if n > 1 else [['ROOT'], ['NODEP'], ['SUBJ']]):
            if n < 4:
                all_answers(ctx, n, deps)
            else:
                answers_part(ctx, n, deps, k, 4 if n < 6 else 16)
    elif kind == 'labels':
        n, k = chunk[1:]
        for num, deps in enumerate(itertools.product(('NODEP', 'ROOT', 'OBJ'), repeat=n)):
            if num % 3 == k:
                all_answers(ctx, n, list(deps))
    elif kind == 'alllabels':
        for d in nets.DEPS[chunk[1]::5]:
            for pos in range(3):
                deps = ['SUBJ', 'ROOT', 'OBJ']
                deps[pos] = d
                all_answers(ctx, 3, deps)
    elif kind == 'batch':
        _, m, size = chunk
        lens = [3, 1, 4] if m == 3 else [4, 2]
        pats = [0, 1, 2, 3, (0, 1), (1, 2), (3, 1)]
        for perm in itertools.permutations(range(m)):
            sents = [sentence(lens[i], 'abc'[i]) for i in perm]
            for choice in itertools.product(pats, repeat=m):
                for procs in (1, 2, 3) if m == 2 else (2,):
                    deps = [(BASE * 2)[i:i + len(s)] for i, s in enumerate(sents)]
                    judge_batch(ctx, sents, deps, [pattern(c) for c in choice], choice, size, procs)
        # sentences all of whose words have no dependency, and empty ones, among others
        for mask in itertools.product((0, 1, 2), repeat=m):
            sents = [[] if f == 2 else sentence(lens[i], 'abc'[i]) for i, f in enumerate(mask)]
            if sum(not s for s in sents) > 1:
                continue
            deps = [['NODEP'] * len(s) if f == 1 else BASE[:len(s)] for s, f in zip(sents, mask)]
            for c in pats:
                judge_batch(ctx, sents, deps, [pattern(c)] * m, c, size, 1)
    elif kind == 'many':
        n, k = chunk[1:]
        lens = [1 + (i * 7 + k) % (5, 11, 3)[k] for i in range(n)]
        sents = [sentence(m, 's%dw' % i) for i, m in enumerate(lens)]
        deps = [['NODEP' if i % 5 == 4 and j % 2 else (BASE * 2)[(i + j) % 8] for j in range(m)] for i, m in enumerate(lens)]
        pats = [0, 1, 2, 3, (0, 1), (1, 2), (3, 1), (3, 0), (2, 0)]
        choice = [pats[(i + i // 9) % 9] for i in range(n)]
        for size, procs in ((128, 1), (128, 3), (3, 2)) if n < 900 else ((128, 2),):
            judge_batch(ctx, sents, deps, [pattern(c) for c in choice], choice, size, procs)
    elif kind == 'periodic':
        # one answer, then a repeated pair of answers, one deviation anywhere
        n, s = chunk[1:]
        start = [] if s == 4 else [s]
        deps = [BASE[i % 8] for i in range(n)]
        for a, b in itertools.product(range(4), repeat=2):
            seq = (start + [a, b] * n)[:2 * n - 2]
            last = len(one(ctx, n, deps, seq))
            for d in range(len(start), last, 1 if n < 30 else 3):
                for t in range(4):
                    if t != seq[d]:
                        one(ctx, n, deps, seq[:d] + [t] + seq[d + 1:])
    elif kind == 'long':
        for n in (20, 49, 50):
            for c in [0, 1, 2, 3] + [(k, b) for k in ('star', 'late', 'zigzag') for b in (2, 3, 7, 10, 19, 48, 49, 50)] + [(a, b) for a in range(4) for b in range(4) if a != b]:
                for nodep in (0, 3, 7):
                    deps = ['NODEP' if nodep and i % nodep == 0 else BASE[i % 8] for i in range(n)]
                    judge_batch(ctx, [sentence(n)], [deps], [pattern(c)], c, 1, 1)


def replay(c):
    from ..core import Ctx
    ctx = Ctx()
    if 'n' in c:
        one(ctx, c['n'], c['deps'], c['answers'])
    else:
        pats = [pattern(a if isinstance(a, int) else tuple(a)) for a in (c['answers'] if isinstance(c['answers'], list) and len(c['answers']) == len(c['sentences']) else [c['answers']] * len(c['sentences']))]
        judge_batch(ctx, c['sentences'], c['deps'], pats, None, c['batch'], c['threads'])
    return ctx.fails[0][1] if ctx.fails else None
