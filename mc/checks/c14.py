"""Gold transitions: every projective labelled tree up to a size, replayed through the real parser."""
import itertools
import json

from .. import boot, nets, parsefix
from ..core import exc_text
from .c13 import compare

PROP = 'C14'
TITLE = 'Gold transitions rebuild the tree'
RULE = 'the parser, answered with the derived transitions, returns exactly the labelled tree; non-trivial: three or more linked words'
ASSUMES = ['the networks answer with the gold tags, dependencies and transitions']

P = None
LS = None
LABELS = [d for d in nets.DEPS if d not in ('PAD', 'NODEP', 'ROOT')]


def setup():
    global P, LS
    parsefix.setup()
    from scrappybara.syntax.labelled_data import LabelledSentence
    from scrappybara.syntax.parser import Parser
    LS = LabelledSentence
    P = Parser(2, 4)


def BOUNDS(tier):
    return {'trees': 'all projective trees of 1..%d words' % (8 if tier == 'quick' else 9),
            'words without dependency': 'every placement (written with or without a parent of their own) for trees of up to %d words in sentences of up to %d' % ((5, 8) if tier == 'quick' else (6, 10)),
            'labels': 'labels rotate through all 22 dependency labels; all label assignments from 3 for trees of 3 words',
            'crossing': 'have_crossing_arcs, is_leaf and valid_idxs on all trees (also crossing ones) of up to 5 words',
            'read back': 'length, indexing, iteration and text of the same sentences; every sequence of up to %d warnings over 7 kinds on two sentences' % (3 if tier == 'quick' else 4),
            'far apart': 'all trees of 2..4 words placed far apart in a sentence of 50 words',
            'repeated words': 'every other sentence of a batch consists of one word repeated',
            'long': 'chains, combs and balanced trees of 49 and 50 words'}


def trees(n):
    """All projective trees over 0..n-1 as head lists (root -1)"""
    for heads in itertools.product(range(-1, n), repeat=n):
        if sum(h == -1 for h in heads) != 1 or any(h == i for i, h in enumerate(heads)):
            continue
        if well(heads) and projective(heads):
            yield heads


def well(heads):
    for i in range(len(heads)):
        seen, j = set(), i
        while j != -1:
            if j in seen:
                return False
            seen.add(j)
            j = heads[j]
    return True


def projective(heads):
    n = len(heads)
    for c, h in enumerate(heads):
        if h == -1:
            continue
        for k in range(min(c, h) + 1, max(c, h)):
            j = k
            while j != -1 and j != h:
                j = heads[j]
            if j != h:
                return False
    return True


def gen_projective(n):
    """Direct generation (for larger n): spans"""
    memo = {}

    def span(lo, hi):
        # list of (root, {child: head}) for words lo..hi-1
        key = hi - lo
        if key not in memo:
            res = []
            for r in range(key):
                for left in forest(0, r):
                    for right in forest(r + 1, key):
                        heads = {}
                        for part in (left, right):
                            for root, hh in part:
                                heads.update(hh)
                                heads[root] = r
                        res.append((r, heads))
            memo[key] = res
        return [(r + lo, {c + lo: h + lo for c, h in hh.items()}) for r, hh in memo[key]]

    def forest(lo, hi):
        if lo == hi:
            yield []
            return
        for cut in range(lo + 1, hi + 1):
            for head in span(lo, cut):
                for rest in forest(cut, hi):
                    yield [head] + rest
    for r, hh in span(0, n):
        yield tuple(hh.get(i, -1) for i in range(n))


def chunks(tier):
    out = [('all', n, k, m) for n, m in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 2), (6, 12)) for k in range(m)]
    out += [('all', 7, k, 16) for k in range(16)] + [('all', 8, k, 64) for k in range(64)]
    if tier == 'thorough':
        out += [('all', 9, k, 256) for k in range(256)]
    out += [('nodep', n, total) for n in range(1, (5 if tier == 'quick' else 6) + 1) for total in range(n, (8 if tier == 'quick' else 10) + 1)]
    out += [('labels', k) for k in range(4)]
    out += [('cross', n) for n in range(1, 6)]
    out += [('far', n) for n in range(2, 5)]
    out += [('long', 0)]
    out += [('warn', 3 if tier == 'quick' else 4, k) for k in range(4)]
    return out


def sample(heads, deps, tags=None):
    return [('w%d' % i, (tags or ['NOUN'] * len(heads))[i], deps[i], heads[i]) for i in range(len(heads))]


def judge(ctx, samples, alike=0):
    """A batch of labelled sentences (distinct lengths or words are told apart by an index)"""
    sents = []
    for k, s in enumerate(samples):
        # every other sentence consists of one word repeated
        sents.append([('s%d' % k + (t[0] if alike is None or (alike + k) % 2 else ''),) + tuple(t[1:]) for t in s])
    gold = {}
    labelled = []
    for s in sents:
        ok, ls = ctx.call(LS, 0, s)
        ok2, tr = ctx.call(lambda: list(ls.transitions)) if ok else (False, ls)
        if not ok2:
            return exc_text(tr)
        gold[tuple(t[0] for t in s)] = (s, {(int(a), int(b)): int(t) for a, b, t in tr})
        labelled.append(ls)
    missing = []

    def trans(toks, tg, dp, i, j):
        t = gold[tuple(toks)][1].get((i, j))
        if t is None:
            missing.append((toks, i, j))
            return nets.SHIFT
        return t
    boot.set_oracle(nets.Net(lambda t: [nets.TAG[x[1]] for x in gold[tuple(t)][0]],
                             lambda t, tags: [nets.DEP[x[2]] for x in gold[tuple(t)][0]], trans))
    ok, r = ctx.call(P, [[t[0] for t in s] for s in sents])
    if not ok:
        return exc_text(r)
    for s, ls, tags, tree in zip(sents, labelled, *r):
        want_links = {i: (t[2], t[3]) for i, t in enumerate(s) if t[2] not in ('ROOT', 'NODEP')}
        root = [i for i, t in enumerate(s) if t[2] == 'ROOT'][0]
        want = (root, want_links) if want_links else None
        msg = compare(tree, want, len(s))
        if msg is None and [t.name for t in tags] != [t[1] for t in s]:
            msg = 'tags %r' % (tags,)
        if msg is None:
            # the labelled sentence itself
            if list(ls.tokens) != [t[0] for t in s] or [d.name for d in ls.deps] != [t[2] for t in s] or [t.name for t in ls.tags] != [t[1] for t in s]:
                msg = 'the labelled sentence lost its words or labels'
            elif parsefix.links_of(ls.tree) != want_links or ls.tree.root != root:
                msg = 'the labelled tree is %r' % (parsefix.links_of(ls.tree),)
            elif list(ls.valid_idxs) != [i for i, t in enumerate(s) if t[2] != 'NODEP']:
                msg = 'valid_idxs %r' % (ls.valid_idxs,)
        if msg:
            return '%r: %s' % (s, msg)
    return None


def run_batches(ctx, it, size=8):
    batch = []
    for s in it:
        batch.append(s)
        if len(batch) == size:
            settle(ctx, batch)
            batch = []
    if batch:
        settle(ctx, batch)


def settle(ctx, batch):
    msg = judge(ctx, batch)
    if msg is None:
        for s in batch:
            ctx.done(repr(s), sum(t[2] != 'NODEP' for t in s) > 2, s)
        return
    for s in batch:
        for alike in (0, 1):
            m = judge(ctx, [s], alike)
            if m:
                ctx.fail({'samples': [s], 'alike': alike}, m)
                return
    ctx.fail({'samples': batch}, msg)


def reports(ctx, s):
    """Crossing links, leaves and usable words of a labelled sentence"""
    ok, ls = ctx.call(LS, 0, s)
    if not ok:
        return exc_text(ls)
    linked = [i for i, t in enumerate(s) if t[2] != 'NODEP']
    heads = [t[3] if t[2] != 'NODEP' else -1 for t in s]
    ok, r = ctx.call(lambda: (list(ls.valid_idxs), {a: bool(ls.is_leaf(a)) for a in linked}, {(a, b): bool(ls.have_crossing_arcs(a, b)) for a in linked for b in linked}))
    if not ok:
        return exc_text(r)
    ws = [t[0] for t in s]
    ok2, back = ctx.call(lambda: (len(ls), list(ls), [ls[i] for i in range(len(ws))], [ls[-1 - i] for i in range(len(ws))], ls[1:], str(ls), repr(ls), ls.id, list(ls.tokens)))
    if not ok2:
        return exc_text(back)
    if back != (len(ws), ws, ws, ws[::-1], ws[1:], ' '.join(ws), ' '.join(ws), 0, ws):
        return 'the labelled sentence %r reads back as %r' % (ws, back)
    valid, leaf, cross = r
    if valid != linked:
        return 'valid_idxs %r' % (valid,)
    for a in linked:
        if leaf[a] != (a not in heads):
            return 'is_leaf(%d)' % a
        for b in linked:
            want = False
            if heads[a] != -1 and heads[b] != -1:
                (x1, y1), (x2, y2) = sorted((a, heads[a])), sorted((b, heads[b]))
                want = x1 < x2 < y1 < y2 or x2 < x1 < y2 < y1
            if cross[a, b] != want:
                return 'have_crossing_arcs(%d, %d) is %s' % (a, b, cross[a, b])
    return None


WARNS = [(i, c, f) for i in (0, 1, 10) for c, f in (('a', []), ('b', [0, 1]))] + [(0, 'é "x"\n', [2])]


def warned(ctx, ops, own):
    """ops: (sentence, word, comment, words in focus); the JSON is read after every registration (own: only at the end)"""
    def body():
        sents = [LS(7, [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1)]), LS(8, [('go', 'VERB', 'ROOT', -1)])]
        model = [{}, {}]
        if any(x.warnings_json is not None for x in sents):
            return 'a new sentence has warnings'
        for n, (k, idx, comment, focus) in enumerate(ops):
            sents[k].register_warning(idx, comment, list(focus))
            model[k].setdefault(str(idx), []).append({'comment': comment, 'focusIdxs': list(focus)})
            if own or n == len(ops) - 1:
                for x, m in zip(sents, model):
                    got = x.warnings_json
                    if (got is None) != (not m) or got is not None and json.loads(got) != m:
                        return 'warnings %r instead of %r' % (got, m)
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


FAR = [(0, 1, 9, 10), (2, 9, 10, 11), (9, 10, 25, 49), (0, 2, 20, 30), (8, 12, 39, 40)]


def far(ctx, n):
    """Small trees, also crossing ones, whose words stand far apart in a sentence of 50"""
    for heads in itertools.product(range(-1, n), repeat=n):
        if sum(h == -1 for h in heads) != 1 or not well(heads) or any(h == i for i, h in enumerate(heads)):
            continue
        for pos in FAR:
            hh, dd = [-1] * 50, ['NODEP'] * 50
            for i in range(n):
                hh[pos[i]] = -1 if heads[i] == -1 else pos[heads[i]]
                dd[pos[i]] = 'ROOT' if heads[i] == -1 else LABELS[(i * 5 + n) % len(LABELS)]
            s = sample(hh, dd)
            msg = reports(ctx, s)
            if msg is None and projective(heads):
                msg = judge(ctx, [s], pos[1])
            if msg:
                ctx.fail({'samples': [s], 'crossing': True}, msg)
            else:
                ctx.done(('far', heads, pos))


def labels(n, root, off=0):
    return ['ROOT' if i == root else LABELS[(i * 5 + off) % len(LABELS)] for i in range(n)]


def run(chunk, ctx):
    kind = chunk[0]
    if kind == 'all':
        _, n, k, m = chunk
        run_batches(ctx, (sample(h, labels(n, h.index(-1), num)) for num, h in enumerate(gen_projective(n)) if num % m == k))
    elif kind == 'nodep':
        _, n, total = chunk

        def gen():
            for h in gen_projective(n):
                for pos in itertools.combinations(range(total), n):
                    heads, deps = [-1] * total, ['NODEP'] * total
                    for i, p in enumerate(pos):
                        heads[p] = -1 if h[i] == -1 else pos[h[i]]
                        deps[p] = 'ROOT' if h[i] == -1 else LABELS[(p * 3 + n) % len(LABELS)]
                    # a word without dependency may be written with any parent: it stays out all the same
                    for p in range(total):
                        if deps[p] == 'NODEP':
                            heads[p] = (-1, -1, pos[0], (p + 1) % total, pos[-1])[(p + sum(pos)) % 5]
                    yield sample(heads, deps)
        run_batches(ctx, gen())
    elif kind == 'labels':
        def gen():
            for h in trees(3):
                for ds in itertools.product(('SUBJ', 'OBJ', 'AND') if chunk[1] else ('CPL', 'NEG', 'SPLIT'), repeat=3):
                    deps = ['ROOT' if h[i] == -1 else ds[i] for i in range(3)]
                    for tg in itertools.product(('NOUN', 'VERB', 'PUNCT'), repeat=3):
                        yield sample(h, deps, tg)
            for h in trees(2):
                for d in LABELS:
                    for tg in nets.TAGS[1:]:
                        yield sample(h, ['ROOT' if h[i] == -1 else d for i in range(2)], [tg, 'VERB'])
        run_batches(ctx, (s for num, s in enumerate(gen()) if num % 4 == chunk[1]))
    elif kind == 'cross':
        n = chunk[1]
        for heads in itertools.product(range(-1, n), repeat=n):
            if sum(h == -1 for h in heads) != 1 or not well(heads) or any(h == i for i, h in enumerate(heads)):
                continue
            s = sample(heads, labels(n, heads.index(-1)))
            msg = reports(ctx, s)
            if msg:
                ctx.fail({'samples': [s], 'crossing': True}, msg)
            else:
                ctx.done(('cross', heads), n > 2)
    elif kind == 'far':
        far(ctx, chunk[1])
    elif kind == 'warn':
        opts = [(k, *w) for k in (0, 1) for w in WARNS]
        i = 0
        for n in range(1, chunk[1] + 1):
            for ops in itertools.product(opts, repeat=n):
                i += 1
                if i % 4 == chunk[2]:
                    msg = warned(ctx, ops, i % 8 < 4)
                    if msg:
                        ctx.fail({'warnings': [list(o) for o in ops], 'own': i % 8 < 4}, msg)
                    else:
                        ctx.done(('warn', repr(ops)), n > 1)
    elif kind == 'long':
        def gen():
            for n in (48, 49, 50):
                yield sample([i - 1 for i in range(n)], labels(n, 0))
                yield sample([i + 1 for i in range(n - 1)] + [-1], labels(n, n - 1))
                yield sample([-1] + [0] * (n - 1), labels(n, 0))
                yield sample([n - 1] * (n - 1) + [-1], labels(n, n - 1))
                mid = n // 2
                yield sample([mid if i != mid else -1 for i in range(n)], labels(n, mid))

                def bal(lo, hi, par, out):
                    if lo < hi:
                        m = (lo + hi) // 2
                        out[m] = par
                        bal(lo, m, m, out)
                        bal(m + 1, hi, m, out)
                    return out
                yield sample(bal(0, n, -1, [0] * n), labels(n, mid))
        run_batches(ctx, gen(), 3)


def replay(c):
    from ..core import Ctx
    if 'warnings' in c:
        setup()
        return warned(Ctx(), [tuple(o) for o in c['warnings']], c['own'])
    samples = [[tuple(t) for t in s] for s in c['samples']]
    if c.get('crossing'):
        m = reports(Ctx(), samples[0])
        if m or not projective([t[3] for t in samples[0]]):
            return m
    return judge(Ctx(), samples, c.get('alike', 0)) or judge(Ctx(), samples, 1)
