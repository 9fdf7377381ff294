"""Trees: every labelled forest up to a size in every insertion order, every query after every insertion, nested iterations."""
import itertools

from .. import boot
from ..core import exc_text

PROP = 'C30'
TITLE = 'Tree queries'
RULE = 'every answer equals the one read off the list of inserted links; asking twice gives the same answer; non-trivial: ' \
       'two links or more'
ASSUMES = ['each child is inserted once, without cycles', 'membership of a root without links is not judged']

TREE = None


def setup():
    global TREE
    boot.boot()
    from scrappybara.utils.tree import Tree
    TREE = Tree


def BOUNDS(tier):
    return {'trees': 'all insertion sequences of up to %d links over %d nodes and 2 labels (3 labels for up to 3 links), links among nodes not yet below the root included' % ((4, 5) if tier == 'quick' else (5, 6)),
            'queries': 'after every insertion: all queries for all nodes, labels and label sets, on known and unknown nodes',
            'iterations': 'nested, interleaved and abandoned iterations over every tree',
            'two trees': 'all pairs of forests over 4 nodes grown in turns',
            'nodes': 'integers from 0, strings, tuples; labels integers, strings, None-like values; chains and stars of up to 300 nodes'}


def parent_maps(n, root=0):
    """all ways to give each non-root node at most one parent without cycles, as tuples of parents (None: not linked)"""
    others = list(range(1, n))
    for ps in itertools.product([None] + list(range(n)), repeat=len(others)):
        pm = dict(zip(others, ps))
        if any(c == p for c, p in pm.items()):
            continue
        ok = True
        for c in pm:
            seen, x = set(), c
            while x is not None and ok:
                if x in seen:
                    ok = False
                seen.add(x)
                x = pm.get(x)
        if ok:
            yield {c: p for c, p in pm.items() if p is not None}


def chunks(tier):
    out = []
    n = 5 if tier == 'quick' else 6
    for size in range(1, 5):
        out.append(('all', size, 3 if size < 4 else 2, 0, 1))
    m = 16 if tier == 'quick' else 64
    out += [('some', n, 2, r, m) for r in range(m)]
    out += [('kinds', 0), ('large', 0)] + [('two', r, 4) for r in range(4)]
    return out


def check(links, names, labels, root, ctx, nested=True):
    """builds the tree step by step; returns a message or None"""
    ok, tree = ctx.call(TREE, root)
    if not ok:
        return exc_text(tree)
    done = []
    unknown = 'no such node'
    for step in range(len(links) + 1):
        if step:
            ok, r = ctx.call(tree.register_child, *links[step - 1])
            if not ok:
                return 'inserting %r: %s' % (links[step - 1], exc_text(r))
            done.append(links[step - 1])
        for rnd in (0, 1):
            msg = ask(tree, done, names + [unknown], labels, root, ctx)
            if msg:
                return 'after %d insertions, %s%s' % (step, msg, ' when asked again' if rnd else '')
        if nested:
            msg = iterate(tree, done, ctx)
            if msg:
                return 'after %d insertions, %s' % (step, msg)
    return None


def ask(tree, links, names, labels, root, ctx):
    par = {c: (l, p) for l, p, c in links}
    kids = {}
    for l, p, c in links:
        kids.setdefault(p, []).append((l, c))
    err = []

    def same(name, fn, want, key=None):
        ok, r = ctx.call(fn)
        if not ok:
            err.append('%s: %s' % (name, exc_text(r)))
            return
        got = key(r) if key else r
        if got != want:
            err.append('%s gives %r instead of %r' % (name, got, want))

    def grouped(pairs):
        # order is only promised among the children with the same label
        d = {}
        for l, c in pairs:
            d.setdefault(l, []).append(c)
        return d
    same('root', lambda: tree.root, root)
    same('len', lambda: len(tree), 1 + len(par))
    same('nodes', lambda: tree.nodes, {root} | set(par), lambda r: set(r) if len(r) == len(set(r)) and r[0] == root else r)
    same('arcs', lambda: list(tree), sorted(((l, p, c) for l, p, c in links), key=repr), lambda r: sorted((tuple(x) for x in r), key=repr))
    sets = [set(), set(labels), {labels[0]}, {labels[-1], 'zz'}]
    for n in names:
        same('parent(%r)' % (n,), lambda: tree.parent(n), par.get(n))
        mine = kids.get(n, [])
        same('children(%r)' % (n,), lambda: tree.children(n), grouped(mine), grouped)
        if n in par or n in kids or n != root:
            same('has_node(%r)' % (n,), lambda: bool(tree.has_node(n)), n in par or n in kids)
        sib = [(l, c) for l, c in kids.get(par[n][1], []) if c != n] if n in par else []
        same('siblings(%r)' % (n,), lambda: tree.siblings(n), grouped(sib), grouped)
        for s in sets:
            same('has_parent_via_set(%r, %r)' % (n, s), lambda: bool(tree.has_parent_via_set(n, s)), n in par and par[n][0] in s)
            same('has_child_via_set(%r, %r)' % (n, s), lambda: bool(tree.has_child_via_set(n, s)), any(l in s for l, _ in mine))
        for lab in list(labels) + ['zz']:
            via = [c for l, c in mine if l == lab]
            same('children_via(%r, %r)' % (n, lab), lambda: list(tree.children_via(n, lab)), via)
            same('child_via(%r, %r)' % (n, lab), lambda: tree.child_via(n, lab), via[0] if via else None)
            same('has_child_via(%r, %r)' % (n, lab), lambda: bool(tree.has_child_via(n, lab)), bool(via))
            same('has_parent_via(%r, %r)' % (n, lab), lambda: bool(tree.has_parent_via(n, lab)), n in par and par[n][0] == lab)
            up, x = [], n
            while x in par and par[x][0] == lab:
                x = par[x][1]
                up.append(x)
            same('ancestors_via(%r, %r)' % (n, lab), lambda: list(tree.ancestors_via(n, lab)), up[::-1])
            down = []

            def walk(x):
                for l, c in kids.get(x, []):
                    if l == lab:
                        down.append(c)
                        walk(c)
            walk(n)
            same('descendants_via(%r, %r)' % (n, lab), lambda: list(tree.descendants_via(n, lab)), down)
        if err:
            return err[0]
    return err[0] if err else None


def iterate(tree, links, ctx):
    """nested, interleaved and abandoned iterations all see every link once"""
    want = sorted(((l, p, c) for l, p, c in links), key=repr)

    def body():
        outer = []
        for a in tree:
            outer.append(tuple(a))
            inner = []
            for b in tree:
                inner.append(tuple(b))
                len(tree), tree.nodes, tree.children(b[1])
            if sorted(inner, key=repr) != want:
                return 'a nested iteration gives %r' % inner
        if sorted(outer, key=repr) != want:
            return 'an iteration with others inside gives %r' % outer
        i, j = iter(tree), iter(tree)
        x, y = [], []
        for k in range(len(want)):
            x.append(tuple(next(i)))
            if k % 2 == 0:
                y.append(tuple(next(j)))
        y += [tuple(b) for b in j]
        if sorted(x, key=repr) != want or sorted(y, key=repr) != want:
            return 'interleaved iterations give %r and %r' % (x, y)
        for b in tree:
            break
        if sorted((tuple(b) for b in tree), key=repr) != want:
            return 'an iteration after an abandoned one is wrong'
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


def two_trees(la, lb, ctx):
    def go():
        t, done = [TREE(0), TREE(0)], [[], []]
        for step in range(max(len(la), len(lb))):
            for i, links in enumerate((la, lb)):
                if step < len(links):
                    t[i].register_child(*links[step])
                    done[i].append(links[step])
        for i in (0, 1):
            msg = ask(t[i], done[i], [0, 1, 2, 3, 'none'], ['x', 'y'], 0, ctx)
            if msg:
                return 'tree %d of two: %s' % (i, msg)
        want = [sorted(d, key=repr) for d in done]
        outer = []
        for x in t[0]:
            outer.append(tuple(x))
            if sorted((tuple(y) for y in t[1]), key=repr) != want[1]:
                return 'an iteration inside that of another tree is wrong'
        if sorted(outer, key=repr) != want[0]:
            return 'an iteration with that of another tree inside gives %r' % outer
        return None
    ok, r = ctx.call(go)
    return r if ok else exc_text(r)


def one(links, names, labels, root, ctx, nested=True):
    case = {'root': root, 'links': [list(l) for l in links], 'names': names, 'labels': labels}
    msg = check(links, names, labels, root, ctx, nested)
    if msg:
        ctx.fail(case, msg)
    else:
        ctx.done(tuple(links), len(links) > 1, case)


def run(chunk, ctx):
    kind = chunk[0]
    if kind in ('all', 'some'):
        _, n, nl, r, m = chunk
        labels = ['x', 'y', 'z'][:nl]
        k = 0
        for pm in parent_maps(n):
            if kind == 'some' and len(pm) != n - 1:
                continue
            for perm in itertools.permutations(sorted(pm)):
                k += 1
                if k % m != r:
                    continue
                if kind == 'some' and n > 4 and list(perm) not in (sorted(pm), sorted(pm)[::-1]) and k % 7:
                    continue
                for labs in itertools.product(labels, repeat=len(perm)):
                    if kind == 'some' and labs and labs[0] != 'x':
                        continue
                    one([(l, pm[c], c) for c, l in zip(perm, labs)], list(range(n)), labels, 0, ctx, len(perm) < 4)
    elif kind == 'two':
        # two trees over the same nodes grow in turns, with iterations of one inside those of the other
        maps = list(parent_maps(4))
        k = 0
        for a, b in itertools.product(maps, repeat=2):
            k += 1
            if k % chunk[2] != chunk[1] or not (a or b):
                continue
            la = [('x' if (c + k) % 2 else 'y', a[c], c) for c in sorted(a)]
            lb = [('x' if (c + k) % 3 else 'y', b[c], c) for c in sorted(b, reverse=True)]
            case = {'two': [la, lb]}
            msg = two_trees(la, lb, ctx)
            if msg:
                ctx.fail(case, msg)
            else:
                ctx.done((tuple(la), tuple(lb)), True, case)
    elif kind == 'kinds':
        namesets = [[0, 1, 2, 3], ['', 'a', 'b', 'c'], [(), (1,), (1, 2), ('a',)], [3, -1, 2, 0], [1, 'one', (1,), 2.5], [True, 'False', 2, 3]]
        labsets = [[0, 1], ['', 'x'], [None, 'x'], [False, 'x'], [(1, 2), 'x']]
        for names in namesets:
            for labels in labsets:
                for pm in parent_maps(4):
                    perm = sorted(pm, reverse=True)
                    for labs in itertools.product(labels, repeat=len(perm)):
                        one([(l, names[pm[c]], names[c]) for c, l in zip(perm, labs)], names, labels, names[0], ctx)
    else:
        for n in (10, 50, 300):
            chain = [('x', i, i + 1) for i in range(n - 1)]
            star = [('x' if i % 3 else 'y', 0, i) for i in range(1, n)]
            comb = [('x' if i % 2 else 'y', (i - 1) // 2, i) for i in range(1, n)]
            for links in (chain, star, comb, chain[::-1]):
                ok, tree = ctx.call(TREE, 0)
                for l in links:
                    tree.register_child(*l)
                msg = ask(tree, links, list(range(0, n, max(1, n // 10))) + ['no'], ['x', 'y'], 0, ctx)
                if msg:
                    ctx.fail({'n': n, 'links': links[:5]}, msg)
                else:
                    ctx.done((n, links[0], links[1]))


def replay(case):
    from ..core import Ctx
    setup()
    if 'two' in case:
        return two_trees([tuple(l) for l in case['two'][0]], [tuple(l) for l in case['two'][1]], Ctx())
    if 'names' not in case:
        return 'see case'
    un = lambda x: tuple(un(y) for y in x) if isinstance(x, list) else x
    return check([tuple(un(x) for x in l) for l in case['links']], [un(x) for x in case['names']], [un(x) for x in case['labels']], un(case['root']), Ctx())
