"""Used by the demonstrations: code from the current directory, data files in a scratch directory, networks replaced by
functions of what they are shown."""
import atexit
import os
import pathlib
import pickle
import shutil
import sys
import tempfile
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


class _Inert:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return _Inert()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Inert()

    def __add__(self, other):
        return [] if isinstance(other, list) else _Inert()

    def __radd__(self, other):
        return other

    def __iter__(self):
        return iter(())


NET = [None]


class _Model(_Inert):
    def __init__(self, *a, **k):
        self.inputs = []

    def predict(self, inputs, *a, **k):
        return NET[0](inputs)


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Inert()


class _Dev:
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


tf = _Mod('tensorflow')
tf.__path__ = []
tf.device = _Dev
tf.keras = _Mod('tensorflow.keras')
tf.keras.Model = _Model
tf.keras.layers = _Inert()
tf.keras.callbacks = _Inert()
sys.modules['tensorflow'] = tf
sys.modules['tensorflow.keras'] = tf.keras

ROOT = pathlib.Path(tempfile.mkdtemp(prefix='demo_'))
atexit.register(lambda pid=os.getpid(): os.getpid() == pid and shutil.rmtree(str(ROOT), ignore_errors=True))
DATA = ROOT / 'data'
REAL = pathlib.Path(os.getcwd()) / 'scrappybara' / 'data'
for sub in ('english', 'models'):
    shutil.copytree(str(REAL / sub), str(DATA / sub))
(DATA / 'langmodel').mkdir()
import importlib.util
_spec = importlib.util.spec_from_file_location('scrappybara.config', str(pathlib.Path(os.getcwd()) / 'scrappybara' / 'config.py'))
cfg = importlib.util.module_from_spec(_spec)
sys.modules['scrappybara.config'] = cfg
_spec.loader.exec_module(cfg)
cfg.DATA_DIR = DATA
WORDS = ('cat dog bird tea car i you he she we they it eat see like want paint give be have get do make call up out red big '
         'painted by for to not john smith hot market stock think find run walk carry stop stopped loved love').split()


def tables(uni=None, bi=None, tri=None):
    """{n-gram: (count, probability)} per order"""
    uni = uni if uni is not None else {w: (100, 0.01) for w in WORDS}
    bi = bi if bi is not None else {'i eat': (10, 0.001)}
    for n, t in ((1, uni), (2, bi), (3, tri or {})):
        with open(str(DATA / 'langmodel' / ('%d_grams.txt' % n)), 'w', encoding='utf-8') as f:
            for g, (c, p) in sorted(t.items(), key=lambda x: -x[1][1]):
                f.write('%s\t%d\t%.17f\n' % (g, c, p))


def vectors(words=('cat', 'dog', 'i', 'eat', 'tea')):
    import numpy as np
    with open(str(DATA / 'models' / 'word_vectors.pkl'), 'wb') as f:
        pickle.dump({w: np.full(100, i + 1, dtype=np.float32) for i, w in enumerate(words)}, f)


def tokenize(text):
    from scrappybara.preprocessing.tokenizer import Tokenizer
    return Tokenizer()(text)


def sentences(text):
    from scrappybara.preprocessing.sentencizer import Sentencizer
    return Sentencizer()(text)


def model(*orders, **t):
    from scrappybara.langmodel.language_model import LanguageModel
    tables(**t)
    return LanguageModel(*(orders or (1, 1)))


def logic(**t):
    from scrappybara.pipeline.logic_pipeline import LogicPipeline
    return LogicPipeline(model(**t))


def predicates(sample, **t):
    return sorted(str(s) for s in logic(**t).test_sample(sample))


def lemmatizer(lm):
    from scrappybara.normalization.lemmatizer import Lemmatizer
    from scrappybara.utils.files import load_dict_from_txt_file as ld, load_set_from_txt_file as ls
    pps = ld('english', 'irregular_past_participles.txt')
    return Lemmatizer(lm, ls('english', 'adjectives.txt'), ld('english', 'irregular_preterits.txt'), pps, ld('english', 'irregular_plurals.txt'),
                      ld('english', 'irregular_comparatives.txt'), ld('english', 'irregular_superlatives.txt'), {v: k for k, v in pps.items()})


def same(got, want):
    assert got == want, 'got %r instead of %r' % (got, want)


def onehot(rows, width):
    """per sentence a list of codes -> probabilities"""
    import numpy as np
    out = np.zeros((len(rows), len(rows[0]), width))
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            out[i, j, c] = 1
    return out


def char_of():
    codes = pickle.load(open(str(DATA / 'models' / 'char_codes.pkl'), 'rb'))
    return {v: k for k, v in codes.items()}


def shown(chars):
    """the words in the character matrix of one sentence"""
    tab = char_of()
    out = []
    for row in chars:
        w = ''.join(tab.get(int(c), '?') for c in row if c)
        out.append(w.strip('†‡'))
    end = out.index('ʄʄʄ')
    return out[1:end]


def gold_net(samples):
    """networks that know these labelled sentences"""
    import numpy as np
    from scrappybara.syntax.dependencies import Dep
    from scrappybara.syntax.labelled_data import LabelledSentence
    from scrappybara.syntax.tags import Tag
    known = {tuple(t[0] for t in s): (s, {(a, b): int(t) for a, b, t in LabelledSentence(0, s).transitions}) for s in samples}

    def codes(words, f):
        s = known[tuple(words)][0]
        return ([0] + [f(t) for t in s] + [0] * 60)[:cfg.PADDED_SENT_LENGTH]

    def net(inputs):
        n = len(inputs)
        if n == 2:
            return onehot([codes(shown(c), lambda t: Tag[t[1]].value) for c in inputs[0]], len(Tag))
        if n == 3:
            return onehot([codes(shown(c), lambda t: Dep[t[2]].value) for c in inputs[1]], len(Dep))
        out = np.zeros((len(inputs[2]), 8))
        for k, c in enumerate(inputs[2]):
            i, j = list(inputs[4][k]).index(True) - 1, list(inputs[5][k]).index(True) - 1
            out[k, known[tuple(shown(c))][1][i, j]] = 1
        return out
    NET[0] = net
