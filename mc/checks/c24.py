"""Past participles: every lemma over the letter classes up to a length, every irregular lemma, every ranking of both spellings."""
import itertools

from .. import boot, lmfix, semfix
from ..core import exc_text
from ..reflm import RefLM, ref_past_participle

PROP = 'C24'
TITLE = 'Past participles'
RULE = 'the participle equals the one of the rule table over the same n-gram table; non-trivial: not simply lemma + ed'
ASSUMES = ['the language model is the real one, loaded from n-gram files written by the harness',
           'equally likely spellings are both accepted']

INF = REV = None


def setup():
    global INF, REV
    boot.boot()
    from scrappybara.normalization.inflector import Inflector
    INF = Inflector
    pps = semfix.load_txt_dict('irregular_past_participles.txt')
    REV = {v: k for k, v in pps.items()}


LETTERS = 'abcdefghijklmnopqrstuvwxyz'
ODD = ['', 'x', 'e', 'y', 'é', 'ie', 'ye', 'ee', 'ny', 'ey', '-', "'s", '3', 're-do', 'co-opt', 'x y', 'naïf', 'make up', 'Make', 'MAKE', 'die', 'lie', 'tie',
       'see', 'free', 'agree', 'play', 'apply', 'travel', 'stop', 'visit', 'panic', 'box', 'echo', 'go', 'be', 'bbbbbbbbbbbb', 'aaaaaaaaaaaa', '12', 'a1', '1e', '1y', 'éy', 'ée']


def lemmas(tier):
    out = list(ODD)
    out += [a for a in LETTERS] + [a + b for a in LETTERS for b in LETTERS]
    out += [a + b + c for a in 'bei' for b in LETTERS for c in LETTERS]
    out += ['tr' + a + b for a in LETTERS for b in LETTERS]
    out += [a + b + c for a in LETTERS for b in LETTERS for c in LETTERS]
    out += ['trans' + 'port' * k + a + b for k in (1, 5) for a in LETTERS for b in LETTERS]
    if tier != 'quick':
        out += [''.join(p) for p in itertools.product('bniey', repeat=4)] + [''.join(p) for p in itertools.product('bniey', repeat=5)]
        out += ['x' * k + a + b for k in (5, 10, 30) for a in LETTERS for b in LETTERS]
    return list(dict.fromkeys(out))


def BOUNDS(tier):
    return {'lemmas': '%d lemmas: all of one and two letters, %s, odd ones, every irregular one' % (
                len(lemmas(tier)), 'all of three letters, tr + two letters, long ones' if tier == 'quick' else 'all of three letters, all of four and five over b n i e y, long ones'),
            'tables': 'both spellings unknown, one known, both known in each order and equal; other readings (lemma itself, -d, -ied) known and likelier; with and without bigrams that contain them',
            'irregular': 'every entry of the shipped table'}


def configs(lemma):
    c1, c2 = lemma + 'ed', (lemma + lemma[-1] + 'ed' if lemma else 'xed')
    rest = [lemma, lemma + 'd', lemma[:-1] + 'ied', lemma + 'ied']
    rest = [r for r in dict.fromkeys(rest) if r and r not in (c1, c2) and ' ' not in r and r.isprintable()]
    out = []
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 2), (2, 1), (1, 1)):
        for others in (False, True):
            t = {}
            if a:
                t[c1] = (5, 0.001 * a)
            if b:
                t[c2] = (5, 0.001 * b)
            if others:
                for r in rest:
                    t[r] = (9, 0.05)
                # bigrams that point the other way must not matter without context
                t['the ' + c1] = (9, 0.02 if b > a else 0.0001)
                t['the ' + c2] = (9, 0.0001 if b > a else 0.02)
            out.append({g: v for g, v in t.items() if len(g.split()) <= 2 and g == ' '.join(g.split())})
    return out


def chunks(tier):
    n = len(lemmas(tier))
    step = n // (16 if tier == 'quick' else 64) + 1
    return [('irr', 0)] + [(tier, k, k + step) for k in range(0, n, step)]


def judge(inf, table, lemma, ctx, cfg):
    ok, r = ctx.call(inf.past_participle, lemma)
    want = ref_past_participle(lemma, RefLM({g: v for g, v in table.items()}), REV)
    got = r if ok else exc_text(r)
    if got not in want:
        ctx.fail({'lemma': lemma, 'table': cfg}, 'past participle of %r is %r, expected %r with the table %r' % (lemma, got, sorted(want), cfg))
    else:
        ctx.done((lemma, got), got != lemma + 'ed', {'lemma': lemma, 'participle': got})


def run(chunk, ctx):
    if chunk[0] == 'irr':
        inf = INF(lmfix.load({}), dict(REV))
        table = {l + 'ed': (9, 0.01) for l in REV if ' ' not in l}
        inf2 = INF(lmfix.load(table), dict(REV))
        for l in sorted(REV):
            judge(inf, {}, l, ctx, {})
            judge(inf2, table, l, ctx, {l + 'ed': (9, 0.01)})
            for near in ('x' + l, l + 'x', l[:-1], l.upper()):
                judge(inf, {}, near, ctx, {})
                judge(inf2, table, near, ctx, {})
        for l in sorted(REV):  # nothing is learnt from the answers
            judge(inf, {}, l, ctx, {})
            judge(inf2, table, l, ctx, {l + 'ed': (9, 0.01)})
        return
    tier, lo, hi = chunk
    out = []
    for l in lemmas(tier)[lo:hi]:
        q = set()
        for c in configs(l):
            q |= set(c)
        q |= {l + 'ed', l + l[-1:] + 'ed'}
        for seen, members in out[-60:]:
            if len(members) < 80 and not (seen & q):
                seen |= q
                members.append(l)
                break
        else:
            out.append((set(q), [l]))
    for _, members in out:
        cfgs = [configs(l) for l in members]
        for k in range(max(map(len, cfgs))):
            live = [(l, c[k]) for l, c in zip(members, cfgs) if k < len(c)]
            table = {}
            for _, c in live:
                table.update(c)
            inf = INF(lmfix.load(table), dict(REV))
            for l, c in live:
                judge(inf, table, l, ctx, c)


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    table = {g: tuple(v) for g, v in case['table'].items()}
    judge(INF(lmfix.load(table), REV), table, case['lemma'], ctx, case['table'])
    return ctx.fails[0][1] if ctx.fails else None
