"""Character tables, word tables and data files: every character, every save/load history, every small file."""
import itertools
import pathlib
import tempfile
import shutil

import numpy as np

from .. import boot, lmfix
from ..core import exc_text

PROP = 'C32'
TITLE = 'Saved tables load back'
RULE = 'codes, vectors and entries equal those put in; non-trivial: something was saved and loaded'
ASSUMES = ['words of the vector file are in lower case and contain no blanks, as in the published vectors',
           'lines of set and dictionary files have no blanks at their ends']

WORDS5 = ['cat', 'é', 'mcdog', '.', 'i']
AFFIXES = ['s', "'s", '.', '-', 'ed', 'ing', 'un', '#', '"', "'", ',', '1', ' ', '_', '(', 'es', 'e', 'y']
CS = WS = SIZE = None
SUPPORTED = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?†‡ʃʄ')


def setup():
    global CS, WS, SIZE
    boot.boot()
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.wordset import Wordset
    import scrappybara.config as cfg
    CS, WS, SIZE = Charset, Wordset, cfg.WORD_VECTOR_SIZE


def BOUNDS(tier):
    return {'characters': 'all code points up to U+FFFF (and a few beyond), in the shipped table and in saved ones',
            'histories': 'all sequences of up to %d save and load operations on two instances' % (4 if tier == 'quick' else 6),
            'weights': 'all sequences of up to 4 saves and loads of the three networks',
            'words': 'all subsets of 5 words known to the model x all subsets in the vector file, look-ups in every mix of cases; vector files of up to 4097 words',
            'files': 'all files of up to 3 lines over 8 entries, with and without a final line break'}


def chunks(tier):
    return [('shipped', 0), ('files', 0), ('files', 1), ('pkl', 0), ('weights', 0)] + [('chars', k, 4, tier) for k in range(4)] + [('words', k, 16) for k in range(16)] + [('special', 0)] + [('bigwords', n) for n in (1, 2, 99, 100, 101, 1000, 1025, 4097)]


def check_charset(cs, base):
    """message or None"""
    codes = {c: cs[c] for c in SUPPORTED}
    if len(set(codes.values())) != len(codes):
        return 'two supported characters share a code'
    unk = cs['\u4e00']
    if unk in codes.values():
        return 'an unsupported character has the code of a supported one'
    if len(cs) != len(SUPPORTED) + 1:
        return 'len is %d for %d characters' % (len(cs), len(SUPPORTED))
    if any(not isinstance(int(v), int) or not 0 <= v < len(cs) for v in list(codes.values()) + [unk]):
        return 'a code lies outside the table'
    for i in base:
        c = chr(i)
        if c not in SUPPORTED and cs[c] != unk:
            return 'character %r has code %r' % (c, cs[c])
    return None


def weights_history(seq, root, ctx):
    """every network loads what the last save of the same network wrote"""
    from scrappybara.syntax.models import PDepsModel, PTagsModel, TransModel
    log = boot.FakeModel.weights_log

    def go():
        boot.set_data_dir(root)
        for f in (root / 'models').glob('*weights*'):
            f.unlink()
        kinds = [PTagsModel, PDepsModel, TransModel]
        last = {}
        for op, i in seq:
            if op == 'load' and i not in last:
                continue
            del log[:]
            if op == 'save':
                kinds[i](80).save()
                saves = [n for o, _, n in log if o == 'save']
                if not saves:
                    return 'nothing was saved'
                last[i] = saves[-1]
            else:
                if kinds[i](80).load() is None:
                    return 'load returns nothing'
                loads = [n for o, _, n in log if o == 'load']
                if not loads or loads[-1] != last[i]:
                    return 'network %d loads weights %r, its own were saved as %r' % (i, loads, last[i])
        return None
    ok, r = ctx.call(go)
    return r if ok else exc_text(r)


def run(chunk, ctx):
    kind = chunk[0]
    root = lmfix._own_dir()
    if kind == 'weights':
        ops = [(o, i) for o in ('save', 'load') for i in range(3)]
        for n in range(1, 5):
            for seq in itertools.product(ops, repeat=n):
                note(ctx, {'weights': [list(o) for o in seq]}, weights_history(seq, root, ctx))
        return
    if kind == 'shipped':
        boot.set_data_dir(boot.DATA)
        ok, cs = ctx.call(lambda: CS().load())
        msg = exc_text(cs) if not ok else check_charset(cs, list(range(0, 0x10000)) + [0x1F600, 0x10FFFF])
        note(ctx, {'table': 'shipped'}, msg)
    elif kind == 'chars':
        _, k, m, tier = chunk
        boot.set_data_dir(root)
        ops = [('save', 0), ('load', 0), ('save', 1), ('load', 1)]
        i = 0
        for n in range(1, 5 if tier == 'quick' else 7):
            for seq in itertools.product(ops, repeat=n):
                i += 1
                if i % m == k:
                    note(ctx, {'history': [list(o) for o in seq]}, charset_history(seq, root, ctx, n < 3))
    elif kind == 'words':
        words = WORDS5
        n = 0
        for known in itertools.product((0, 1), repeat=5):
            n += 1
            if n % chunk[2] != chunk[1]:
                continue
            for present in itertools.product((0, 1), repeat=5):
                kn = [w for w, f in zip(words, known) if f]
                pr = [w for w, f in zip(words, present) if f]
                note(ctx, {'known': kn, 'in file': pr}, word_case(kn, pr, root, ctx))
    elif kind == 'special':
        note(ctx, {'words': 'special'}, special_words(root, ctx))
    elif kind == 'bigwords':
        note(ctx, {'words': chunk[1]}, big_words(chunk[1], root, ctx))
    elif kind == 'files':
        from scrappybara.utils.files import load_set_from_txt_file, load_dict_from_txt_file
        from scrappybara.utils import files as files_module
        # nothing in the library itself uses the writer
        txt_file_writer = getattr(files_module, 'txt_file_writer', None) or (lambda *a: open(str(root.joinpath(*a)), 'w', encoding='utf-8'))
        boot.set_data_dir(root)
        if chunk[1] == 0:
            entries = ['a', 'b b', 'é', "it's", '0', 'A', 'a\tb', '#x']
        else:
            entries = ['a\tb', 'a\tc', 'é\tü', 'x y\tz w', "'s\tbe", '0\t1', 'b\ta', '#x\t//y']
        (root / 'sub').mkdir(exist_ok=True)
        big = [tuple('w%d%s' % (i, '\tv%d' % (i % 97) if chunk[1] else '') for i in range(n)) for n in (10, 1000, 1025, 5000)]
        for n in range(0, 5):
            for lines in itertools.product(entries, repeat=n) if n < 4 else big:
                for end in ('\n', ''):
                    for path in (('english_t.txt',), ('sub', 't.txt')):
                        def go():
                            with txt_file_writer(*path) as f:
                                f.write('\n'.join(lines) + (end if lines else ''))
                            raw = root.joinpath(*path).read_bytes().decode('utf-8')
                            if raw != '\n'.join(lines) + (end if lines else ''):
                                return 'file is written as %r' % raw
                            if chunk[1] == 0:
                                got, want = load_set_from_txt_file(*path), set(lines)
                            else:
                                got, want = load_dict_from_txt_file(*path), dict(l.split('\t') for l in lines)
                            return None if got == want and type(got) is type(want) else 'loads as %r' % (got,)
                        ok, r = ctx.call(go)
                        note(ctx, {'lines': list(lines), 'end': end, 'path': list(path)}, r if ok else exc_text(r))
    else:
        from scrappybara.utils.files import load_pkl_file, save_pkl_file
        boot.set_data_dir(root)
        objs = [None, {}, {'a': 1}, [1, 2], {'é': [1.5]}, 'x', {i: str(i) for i in range(1000)}]
        for seq in itertools.product(range(len(objs)), repeat=2):
            def go():
                for i in seq:
                    save_pkl_file(objs[i], 'models', 't.pkl')
                    if load_pkl_file('models', 't.pkl') != objs[i]:
                        return 'object %d does not load back' % i
                return None
            ok, r = ctx.call(go)
            note(ctx, {'objects': list(seq)}, r if ok else exc_text(r))


def note(ctx, case, msg):
    if msg:
        ctx.fail(case, msg)
    else:
        ctx.done(repr(case), True, case)


def charset_history(seq, root, ctx, wide):
    def go():
        f = root / 'models' / 'char_codes.pkl'
        if f.exists():
            f.unlink()
        cs = [CS(), CS()]
        seen = {}
        saved = False
        for op, i in seq:
            if op == 'save':
                cs[i].save()
                saved = True
            elif saved:
                r = cs[i].load()
                if r is not cs[i] and r is None:
                    return 'load returns nothing'
                msg = check_charset(cs[i], range(0, 0x3000 if wide else 0x200))
                if msg:
                    return msg
                seen[i] = {c: cs[i][c] for c in SUPPORTED}
            # what was loaded stays what it was
            for j, codes in seen.items():
                if any(cs[j][c] != v for c, v in codes.items()):
                    return 'codes changed without a load'
        if len(seen) == 2 and seq[-1][0] == 'load' and seq[-2][0] == 'load' and seq[-1][1] != seq[-2][1] and seen[0] != seen[1]:
            return 'two instances loaded from the same file differ'
        return None
    ok, r = ctx.call(go)
    return r if ok else exc_text(r)


def spellings(w):
    """every mix of upper and lower case"""
    return sorted({''.join(p) for p in itertools.product(*[(c, c.upper()) for c in w])}) if len(w) <= 8 else [w, w.upper(), w.capitalize(), w.title(), w.swapcase()]


def special_words(root, ctx):
    """letters whose upper case, lower case and folding differ in unusual ways"""
    def go():
        have = {'stra\u00dfe': ['Stra\u00dfe', 'STRA\u00dfE'], 'zorgs': [], 'zorged': [], "zorg's": [], 'zorg.': [], 'zorg-': [], '#zorg': [], 'ma\u00df': ['MA\u00df'], '\u00f1u': ['\u00d1U', '\u00d1u'], '\ufb01n': ['\ufb01N'], '\u0131x': ['\u0131X'], '\u00b5m': ['\u00b5M'], '\u017fo': ['\u017fO']}
        lm = lmfix.load({w: (3, 0.1) for w in list(have) + ['strasse', 'mass']}, (1,))
        folder = pathlib.Path(tempfile.mkdtemp(dir=str(root)))
        try:
            with open(str(folder / ('glove.6B.%dd.txt' % SIZE)), 'w', encoding='utf-8') as f:
                for i, w in enumerate(have):
                    f.write(w + ' ' + ' '.join(str(i + 1 + k / 4) for k in range(SIZE)) + '\n')
                for w in ('Mass', 'STRASSE'):  # not as the language model knows them
                    f.write(w + ' ' + ' '.join('7.5' for k in range(SIZE)) + '\n')
            WS().save(str(folder), lm)
            ws = WS().load()
        finally:
            shutil.rmtree(str(folder))
        if len(ws) != len(have) + 1:
            return 'len is %d for %d words' % (len(ws), len(have))
        for i, (w, forms) in enumerate(have.items()):
            for form in [w] + forms:
                if not np.array_equal(np.asarray(ws[form]).astype(np.float32), np.asarray([i + 1 + k / 4 for k in range(SIZE)], dtype=np.float32)):
                    return 'vector of %r is wrong' % form
        for w in ('zorg', 'Zorg', 'zor', 'strasse', 'STRASSE', 'mass', 'fin', 'ix', '\u03bcm', 'so'):
            if np.asarray(ws[w]).any():
                return '%r has a vector' % w
        return None
    ok, r = ctx.call(go)
    return r if ok else exc_text(r)


def big_words(n, root, ctx):
    """a vector file of n words of which every second or third is known"""
    def go():
        words = ['w' + ''.join('abcdefghij'[int(d)] for d in str(i)) for i in range(n)]
        known = [w for i, w in enumerate(words) if i % 3 != 1] + ['notinfile', 'neither']
        lm = lmfix.load({w: (3, 0.1) for w in known}, (1,))
        folder = pathlib.Path(tempfile.mkdtemp(dir=str(root)))
        nums = ['0.5', '-0.5', '1e-05', '-1.25', '3', '0', '-2.5e-3', '0.123456']
        rows = {w: [nums[(i * 7 + k * (1 + i % 5)) % len(nums)] for k in range(SIZE)] for i, w in enumerate(words)}
        try:
            with open(str(folder / ('glove.6B.%dd.txt' % SIZE)), 'w', encoding='utf-8') as f:
                for w in words:
                    f.write(w + ' ' + ' '.join(rows[w]) + '\n')
            WS().save(str(folder), lm)
            ws = WS().load()
        finally:
            shutil.rmtree(str(folder))
        both = [w for w in words if w in set(known)]
        if len(ws) != len(both) + 1:
            return 'len is %d for %d words' % (len(ws), len(both))
        kn = set(both)
        for i, w in enumerate(words + ['notinfile', 'neither', 'w', 'W']):
            for form in (w, w.upper(), w.capitalize(), w[:-1] + w[-1].upper()):
                got = np.asarray(ws[form])
                want = np.asarray([float(x) for x in rows[w]], dtype=np.float32) if w in kn else np.zeros(SIZE)
                if got.shape != (SIZE,) or not np.array_equal(got.astype(np.float32), want.astype(np.float32)):
                    return 'vector of %r is wrong' % form
        if len(ws) != len(both) + 1:
            return 'looking words up changed the length to %d' % len(ws)
        return None
    ok, r = ctx.call(go)
    return r if ok else exc_text(r)


def word_case(known, present, root, ctx):
    def go():
        lm = lmfix.load({w: (3, 0.1) for w in known}, (1,))
        folder = pathlib.Path(tempfile.mkdtemp(dir=str(root)))
        try:
            vec = {w: [round(0.25 * (i + 1) * (-1) ** k, 4) for k in range(SIZE)] for i, w in enumerate(present)}
            with open(str(folder / ('glove.6B.%dd.txt' % SIZE)), 'w', encoding='utf-8') as f:
                for w in present:
                    f.write(w + ' ' + ' '.join(str(x) for x in vec[w]) + '\n')
            WS().save(str(folder), lm)
            ws = WS().load()
        finally:
            shutil.rmtree(str(folder))
        both = [w for w in present if w in known]
        if len(ws) != len(both) + 1:
            return 'len is %d for %d words' % (len(ws), len(both))
        for w in WORDS5 + ['zz', '']:
            for form in spellings(w):
                got = np.asarray(ws[form])
                want = np.asarray(vec[w], dtype=np.float32) if w in both else np.zeros(SIZE)
                if got.shape != (SIZE,) or not np.array_equal(got, want):
                    return 'vector of %r is wrong' % form
        for w in both:  # words that only resemble one of the table
            for form in [w + a for a in AFFIXES] + [a + w for a in AFFIXES] + [w[1:], w[:-1], w[:2], w + w, w[::-1]]:
                if form.lower() not in both and np.asarray(ws[form]).any():
                    return '%r has a vector, known are %r' % (form, both)
        if len(ws) != len(both) + 1:
            return 'looking words up changed the length to %d' % len(ws)
        return None
    ok, r = ctx.call(go)
    return r if ok else exc_text(r)


def replay(case):
    from ..core import Ctx
    setup()
    ctx = Ctx()
    root = lmfix._own_dir()
    if 'weights' in case:
        return weights_history([tuple(o) for o in case['weights']], root, ctx)
    if 'known' in case:
        return word_case(case['known'], case['in file'], root, ctx)
    if case.get('words') == 'special':
        return special_words(root, ctx)
    if 'words' in case:
        return big_words(case['words'], root, ctx)
    if 'history' in case:
        boot.set_data_dir(root)
        return charset_history([tuple(o) for o in case['history']], root, ctx, True)
    run(('shipped', 0) if 'table' in case else ('files', int('\t' in ''.join(case.get('lines', [])))), ctx)
    return ctx.fails[0][1] if ctx.fails else None
