"""Language models on scratch tables: writes the n-gram files of a table into a directory of this process and loads the
real LanguageModel from it."""
import os
import pathlib
import tempfile

from . import boot

_DIRS = {}


def _own_dir():
    pid = os.getpid()
    if pid not in _DIRS:
        root = pathlib.Path(tempfile.mkdtemp(prefix='own_', dir=str(boot.DATA.parent)))
        (root / 'langmodel').mkdir()
        (root / 'models').mkdir()
        os.symlink(str(boot.DATA / 'english'), str(root / 'english'))
        _DIRS[pid] = root
    return _DIRS[pid]


def write(table, orders=2, rising=False):
    """table: {n-gram: (count, probability)}; lines in falling probability as the builder writes them, or the other way round"""
    root = _own_dir()
    by = {n: [] for n in range(1, orders + 1)}
    for g, (c, p) in table.items():
        by[len(g.split())].append((g, c, p))
    for n in by:
        by[n].sort(key=lambda r: -r[2], reverse=rising)
        boot.write_ngrams(n, by[n], root)
    boot.set_data_dir(root)
    return root


def load(table, min_counts=(1, 1), rising=False):
    from scrappybara.langmodel.language_model import LanguageModel
    write(table, max(len(min_counts), 1), rising)
    return LanguageModel(*min_counts)
