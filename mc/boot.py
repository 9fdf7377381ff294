"""Closes the system: loads the real scrappybara code from /repo's working tree and puts the two
environment boundaries it talks to under the harness' control.

* tensorflow   -> a stand-in module.  Every keras object is inert; only Model.predict() matters and it
                  asks the installed `Oracle` for the answer (probability tensors).  The neural networks
                  thereby become an environment whose answers the explorer enumerates.
* the data dir -> a scratch directory (the real english/ and models/ files are linked in, the n-gram
                  tables and word vectors that are not shipped with the repository are written by the
                  harness).  scrappybara.config is loaded first and DATA_DIR redirected before any other
                  module is imported, so nothing under /repo is ever written.
"""
import atexit
import importlib.util
import os
import pathlib
import pickle
import shutil
import sys
import tempfile
import types

REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
REAL_DATA = REPO / 'scrappybara' / 'data'

sys.dont_write_bytecode = True


# ------------------------------------------------------------------ tensorflow stand-in

class _Inert:
    """Anything keras-like: callable, attribute-able, concatenable."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return _Inert()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return _Inert()

    def __add__(self, other):
        return [] if isinstance(other, list) else _Inert()

    def __radd__(self, other):
        return other

    def __iter__(self):
        return iter(())


class FakeModel(_Inert):

    inputs = []
    output = _Inert()
    serial = 0
    weights_log = []  # (operation, path, serial number written or read)

    def __init__(self, *a, **k):
        self.inputs = []

    def __call__(self, inputs, *a, **k):
        import numpy as np
        if not (isinstance(inputs, (list, tuple)) and inputs and all(isinstance(x, np.ndarray) for x in inputs)):
            return _Inert()

        class Tensor(np.ndarray):
            def numpy(self):
                return np.asarray(self)
        return np.asarray(ORACLE.predict(inputs)).view(Tensor)

    def compile(self, *a, **k):
        pass

    def load_weights(self, path, *a, **k):
        if os.path.exists(str(path)):
            with open(str(path)) as f:
                FakeModel.weights_log.append(('load', str(path), int(f.read())))
        else:
            FakeModel.weights_log.append(('load', str(path), None))

    def save_weights(self, path, *a, **k):
        FakeModel.serial += 1
        with open(str(path), 'w') as f:
            f.write(str(FakeModel.serial))
        FakeModel.weights_log.append(('save', str(path), FakeModel.serial))

    def predict(self, inputs, *a, **k):
        return ORACLE.predict(inputs)

    predict_on_batch = predict

    def fit(self, inputs, y, **k):
        return ORACLE.fit(inputs, y, **k)


class _Device:
    active = 0

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _FakeTF(types.ModuleType):

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return _Inert()


def _install_fake_tf():
    tf = _FakeTF('tensorflow')
    tf.__path__ = []
    tf.device = _Device
    keras = _FakeTF('tensorflow.keras')
    keras.__path__ = []
    keras.Model = FakeModel
    keras.layers = _Inert()
    keras.callbacks = _Inert()
    tf.keras = keras
    sys.modules['tensorflow'] = tf
    sys.modules['tensorflow.keras'] = keras


class _NoOracle:
    def predict(self, inputs):
        raise RuntimeError('harness error: no network oracle installed')


ORACLE = _NoOracle()


def set_oracle(oracle):
    global ORACLE
    ORACLE = oracle


# ------------------------------------------------------------------ data directory

DATA = None
_BOOTED = False


def _link_real_data(data):
    for sub in ('english', 'models', 'langmodel'):
        (data / sub).mkdir(parents=True)
    for sub in ('english', 'models'):
        src = REAL_DATA / sub
        if src.is_dir():
            for f in src.iterdir():
                shutil.copy(str(f), str(data / sub / f.name))


def write_ngrams(order, rows, data=None):
    """rows: iterable of (text, count, proba)"""
    data = data or DATA
    with open(str(data / 'langmodel' / ('%d_grams.txt' % order)), 'w', encoding='utf-8') as f:
        for text, count, proba in rows:
            f.write('%s\t%d\t%.17f\n' % (text, count, proba))


def write_word_vectors(vectors, data=None):
    data = data or DATA
    with open(str(data / 'models' / 'word_vectors.pkl'), 'wb') as f:
        pickle.dump(vectors, f)


def boot(fake_tf=True):
    """Idempotent.  Returns the scratch data dir."""
    global DATA, _BOOTED
    if _BOOTED:
        return DATA
    _BOOTED = True
    root = pathlib.Path(tempfile.mkdtemp(prefix='vmc_'))
    owner = os.getpid()

    def _cleanup():
        if os.getpid() == owner:
            shutil.rmtree(str(root), ignore_errors=True)

    atexit.register(_cleanup)
    DATA = root / 'data'
    _link_real_data(DATA)
    if fake_tf:
        _install_fake_tf()
    sys.path.insert(0, str(REPO))
    # load config first and redirect the data dir
    spec = importlib.util.spec_from_file_location('scrappybara.config', str(REPO / 'scrappybara' / 'config.py'))
    cfg = importlib.util.module_from_spec(spec)
    sys.modules['scrappybara.config'] = cfg
    spec.loader.exec_module(cfg)
    cfg.DATA_DIR = DATA
    import scrappybara
    assert scrappybara.__file__.startswith(str(REPO)), scrappybara.__file__
    scrappybara.config = cfg
    return DATA


def set_data_dir(path):
    """Redirect the data dir for the current process (used per case)."""
    import scrappybara.config as cfg
    cfg.DATA_DIR = pathlib.Path(path)
