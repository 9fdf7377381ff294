"""List and dictionary helpers: every length and number of parts up to a bound, every history of additions up to a depth."""
import itertools

from .. import boot
from ..core import exc_text

PROP = 'C33'
TITLE = 'Dividing and collecting'
RULE = 'parts are consecutive, as many as asked (at most one per item), of lengths that differ by at most one, and join to the list; batches are ' \
       'consecutive and full but for the last; collections hold exactly the added items under their keys in order; non-trivial: several parts or keys'
ASSUMES = ['numbers of parts and batch sizes are at least one', 'dictionaries to reverse have distinct values']

M = None


def setup():
    global M
    boot.boot()
    from scrappybara.utils import mutables
    M = mutables


def sizes(tier):
    top = 260 if tier == 'quick' else 700
    return list(range(top)) + [999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 9973, 10000, 65537, 100003]


def counts(n, tier):
    few = set(range(1, 140 if tier == 'quick' else 300))
    few |= {n - 2, n - 1, n, n + 1, n + 2, 2 * n, n // 2, n // 3, n // 2 + 1, 255, 256, 257, 1000, 1024}
    return sorted(k for k in few if k >= 1 and (n < 5000 or k < 40 or k == 1000))


def depth(tier):
    return 6 if tier == 'quick' else 7


def BOUNDS(tier):
    return {'lists': '%d lengths from 0 to %d' % (len(sizes(tier)), max(sizes(tier))),
            'parts and batches': 'every number from 1 to %d, those around the length, its half and third; lists of lists, lists with repeated and None items' % (139 if tier == 'quick' else 299),
            'collections': 'every sequence of up to %d additions over 2 x 2 keys and 2 items (repeated keys, items, equal but distinct objects), for each helper, from empty and from filled dictionaries' % depth(tier),
            'reversing': 'every dictionary with distinct values over up to 4 keys'}


def chunks(tier):
    out = [('small', 0)]
    ss = sizes(tier)
    out += [('divide', tier, k, 24) for k in range(24)]
    out += [('collect', depth(tier), k, 8) for k in range(8)]
    out += [('reverse', 0)]
    return out


def divide_msg(items, k, ctx):
    before = list(items)

    def body():
        parts = [list(p) for p in M.divide_list(items, k)]
        n = len(before)
        if items != before:
            return 'dividing changed the list'
        flat = [x for p in parts for x in p]
        if len(flat) != n or any(a is not b for a, b in zip(flat, before)):
            return 'dividing %d items into %d parts gives parts of %r' % (n, k, [len(p) for p in parts][:20])
        if len(parts) != min(n, k) and not (n == 0 and all(not p for p in parts)):
            return 'dividing %d items into %d parts gives %d parts' % (n, k, len(parts))
        if parts and n and (min(map(len, parts)) == 0 or max(map(len, parts)) - min(map(len, parts)) > 1):
            return 'dividing %d items into %d parts gives parts of %r' % (n, k, sorted(map(len, parts))[::max(1, len(parts) - 1)])
        batches = [list(b) for b in M.make_batches(items, k)]
        if items != before:
            return 'batching changed the list'
        want = [before[i:i + k] for i in range(0, n, k)]
        if len(batches) != len(want) or any(len(a) != len(b) or any(x is not y for x, y in zip(a, b)) for a, b in zip(batches, want)):
            return 'batches of %d of %d items have lengths %r' % (k, n, [len(b) for b in batches][:20])
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


KINDS = ['list', 'dictlist', 'set']


def collect_msg(kind, ops, filled, ctx):
    """ops: (key 1, key 2, item)"""
    def body():
        if kind == 'list':
            f, d, model = M.append_to_dict_list, {}, {}
        elif kind == 'dictlist':
            f, d, model = M.append_in_dict_dict_list, {}, {}
        else:
            f, d, model = getattr(M, 'add_in_dict_set', None), {}, {}
            if f is None:
                return None
        if filled:
            if kind == 'list':
                d, model = {'a': ['x'], 'c': []}, {'a': ['x'], 'c': []}
            elif kind == 'dictlist':
                d, model = {'a': {'a': ['x']}, 'c': {}}, {'a': {'a': ['x']}, 'c': {}}
            else:
                d, model = {'a': {'x'}, 'c': set()}, {'a': {'x'}, 'c': set()}
        for k1, k2, item in ops:
            if kind == 'list':
                f(d, k1, item)
                model.setdefault(k1, []).append(item)
            elif kind == 'dictlist':
                f(d, k1, k2, item)
                model.setdefault(k1, {}).setdefault(k2, []).append(item)
            else:
                f(d, k1, item)
                model.setdefault(k1, set()).add(item)
            if dict(d) != model or list(d) != list(model):
                return 'after adding %r the dictionary is %r instead of %r' % ((k1, k2, item), d, model)
            if kind == 'dictlist' and [list(v) for v in d.values()] != [list(v) for v in model.values()]:
                return 'after adding %r the dictionary is %r instead of %r' % ((k1, k2, item), d, model)
        # two keys never share one collection
        if kind == 'dictlist':
            boxes = [id(x) for v in d.values() for x in v.values()] + [id(v) for v in d.values()]
        else:
            boxes = [id(v) for v in d.values()]
        if len(boxes) != len(set(boxes)):
            return 'two keys share one collection'
        return None
    ok, r = ctx.call(body)
    return r if ok else exc_text(r)


def reverse_msg(dic, ctx):
    before = dict(dic)
    ok, r = ctx.call(M.reverse_dict, dic)
    if not ok:
        return exc_text(r)
    if dic != before or dict(r) != {v: k for k, v in before.items()} or r is dic:
        return 'reversing %r gives %r' % (before, r)
    return None


def items_of(n, flavour):
    if flavour == 'ints':
        return list(range(n))
    if flavour == 'lists':
        return [[i] for i in range(n)]
    return [[None, 'a', 'a', 0, False, '', ()][i % 7] for i in range(n)]


def run(chunk, ctx):
    def one(msg, case, outcome, nontrivial):
        if msg:
            ctx.fail(case, msg)
        else:
            ctx.done(outcome, nontrivial, case)
    if chunk[0] == 'small':
        for flavour in ('lists', 'odd'):
            for n in range(40):
                for k in range(1, 45):
                    one(divide_msg(items_of(n, flavour), k, ctx), {'divide': [n, k, flavour]}, (n, k, flavour), 1 < k < n)
    elif chunk[0] == 'divide':
        _, tier, a, m = chunk
        for i, n in enumerate(sizes(tier)):
            if i % m == a:
                items = items_of(n, 'ints')
                for k in counts(n, tier):
                    one(divide_msg(items, k, ctx), {'divide': [n, k, 'ints']}, (n, k), 1 < k < n)
    elif chunk[0] == 'collect':
        _, top, a, m = chunk
        opts = [(x, y, z) for x in 'ab' for y in 'ab' for z in (1, 'i')]
        i = 0
        for n in range(1, top + 1):
            pool = opts if n < 5 else opts[::2]
            for ops in itertools.product(pool, repeat=n):
                i += 1
                if i % m != a:
                    continue
                for kind in KINDS:
                    for filled in (False, True):
                        one(collect_msg(kind, ops, filled, ctx), {'collect': [kind, [list(o) for o in ops], filled]}, (kind, ops, filled), n > 1)
    else:
        for n in range(5):
            for vals in itertools.permutations(['a', 'b', 'go', '', 'é', None, 0], n):
                d = dict(zip(['go', 'went', 'a', 'é'], vals))
                one(reverse_msg(d, ctx), {'reverse': d}, tuple(d.items()), n > 1)


def replay(case):
    from ..core import Ctx
    setup()
    if 'divide' in case:
        n, k, flavour = case['divide']
        return divide_msg(items_of(n, flavour), k, Ctx())
    if 'collect' in case:
        kind, ops, filled = case['collect']
        return collect_msg(kind, [tuple(o) for o in ops], filled, Ctx())
    return reverse_msg(dict(case['reverse']), Ctx())
