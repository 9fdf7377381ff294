"""python tools/mutate.py list FILE... | run FILE...: systematic small changes (operators, constants, conditions, deleted statements, thinned-out
tables and regular expressions) to scrappybara's files, each judged by the checks of that file; prints the changes no check notices.
Development aid: everything happens in scratch copies under /tmp/mut."""
import ast
import copy
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import threading
import time

V = pathlib.Path(__file__).resolve().parent.parent
SCR = pathlib.Path('/tmp/mut')
SEM = ['C17', 'C18', 'C21', 'C19', 'C20', 'C16']
MAP = {
    'preprocessing/tokenizer.py': ['C01', 'C04', 'C03', 'C02', 'C06'], 'preprocessing/sentencizer.py': ['C06', 'C05'], 'preprocessing/sanitization.py': ['C05', 'C06', 'C01'],
    'langmodel/language_model.py': ['C25', 'C26'], 'langmodel/language_model_builder.py': ['C27', 'C29'], 'langmodel/mkn_smoother.py': ['C28', 'C27'],
    'langmodel/mle_smoother.py': ['C28', 'C27'], 'langmodel/ngram.py': ['C28', 'C27'], 'langmodel/ngram_store.py': ['C27', 'C28'], 'langmodel/ngrams_extraction.py': ['C27'],
    'langmodel/smoother.py': ['C28', 'C27'], 'langmodel/token_context.py': ['C26'], 'normalization/canonicalizer.py': SEM, 'normalization/inflector.py': ['C24'],
    'normalization/lemmatizer.py': ['C22'], 'normalization/standardizer.py': ['C23'], 'pipeline/document.py': ['C31'], 'pipeline/sentence.py': ['C31'],
    'pipeline/logic_pipeline.py': ['C10', 'C09'], 'pipeline/pipeline.py': ['C11', 'C10', 'C09'], 'semantics/argument.py': ['C31'], 'semantics/semantic_tuple.py': ['C31'],
    'semantics/argument_code.py': ['C31', 'C17'], 'semantics/semantic_tuple_extractor.py': SEM, 'syntax/arg_finder.py': SEM, 'syntax/chunker.py': SEM, 'syntax/node.py': SEM,
    'syntax/nodifier.py': SEM, 'syntax/fixer.py': SEM + ['C14'], 'syntax/dependencies.py': SEM + ['C13', 'C14'], 'syntax/tags.py': SEM + ['C12'], 'syntax/charset.py': ['C32'],
    'syntax/wordset.py': ['C32', 'C12'], 'syntax/labelled_data.py': ['C14', 'C15'], 'syntax/training_samples.py': ['C15'], 'syntax/transitions.py': ['C14', 'C13', 'C15'],
    'syntax/parser.py': ['C13', 'C12', 'C15'], 'syntax/tagger.py': ['C12'], 'syntax/models.py': ['C12', 'C15', 'C13'], 'utils/files.py': ['C32', 'C25'], 'utils/text.py': ['C35', 'C22', 'C24', 'C27'],
    'utils/mutables.py': ['C33', 'C07', 'C11', 'C13', 'C30', 'C25', 'C26'], 'utils/timer.py': ['C34'], 'utils/multithreading.py': ['C07'], 'utils/tree.py': ['C30'], 'utils/maths.py': ['C28'],
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


STABLE = sorted({n.split('::')[0].rsplit('.', 1)[0].replace('.', '/') + '.py' for n in json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text())['stable']})


def variants(node):
    """(description, replacement node) for small changes of one node"""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                n = copy.deepcopy(node)
                n.ops[i] = new()
                yield 'cmp', n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield 'boolop', n
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            yield 'drop operand %d' % i, n.values[0] if len(n.values) == 1 else n
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'not', node.operand
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        n = copy.deepcopy(node)
        n.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield 'arith', n
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield 'bool', ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield 'int+1', ast.Constant(node.value + 1)
            yield 'int-1', ast.Constant(node.value - 1)
    if isinstance(node, (ast.Set, ast.List, ast.Tuple)) and len(node.elts) > 1 and all(isinstance(e, (ast.Constant, ast.Attribute)) for e in node.elts) and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
        for i in range(len(node.elts)):
            n = copy.deepcopy(node)
            del n.elts[i]
            yield 'drop element %d' % i, n
    if isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('any', 'all', 'min', 'max'):
            n = copy.deepcopy(node)
            n.func.id = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}[f.id]
            yield f.id, n
        if isinstance(f, ast.Name) and f.id in ('sorted', 'reversed', 'set', 'list', 'sum') and len(node.args) == 1 and f.id != 'sum':
            yield 'drop ' + f.id, node.args[0]
        if isinstance(f, ast.Attribute) and f.attr in ('lower', 'strip', 'upper', 'copy', 'reverse', 'sort', 'rstrip') and not node.args:
            yield 'drop .' + f.attr, f.value
        if isinstance(f, ast.Attribute) and f.attr == 'compile' and node.args and isinstance(node.args[0], ast.Constant):
            if len(node.args) > 1:
                n = copy.deepcopy(node)
                n.args = n.args[:1]
                yield 'drop flag', n
            for d, pat in patterns(node.args[0].value):
                n = copy.deepcopy(node)
                n.args[0] = ast.Constant(pat)
                yield d, n
    if isinstance(node, ast.If):
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        yield 'if False', n
        n = copy.deepcopy(node)
        n.test = ast.Constant(True)
        yield 'if True', n
    if isinstance(node, ast.IfExp):
        yield 'then', node.body
        yield 'else', node.orelse
    if isinstance(node, (ast.Break, ast.Continue)):
        yield 'drop ' + type(node).__name__, ast.Pass()
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield 'drop call', ast.Pass()
    if isinstance(node, (ast.Assign, ast.AugAssign)) and isinstance(node, ast.AugAssign):
        yield 'drop assignment', ast.Pass()
    if isinstance(node, ast.comprehension) and node.ifs:
        n = copy.deepcopy(node)
        n.ifs = []
        yield 'drop filter', n


def patterns(p):
    out = []
    for m in re.finditer(r'(?<!\\)[+*?]', p):
        out.append(('drop %s at %d' % (m.group(), m.start()), p[:m.start()] + p[m.end():]))
    for m in re.finditer(r'\(\?[!=<][^)]*\)', p):
        out.append(('drop look-around at %d' % m.start(), p[:m.start()] + p[m.end():]))
    for m in re.finditer(r'\|[^|()]+', p):
        out.append(('drop alternative at %d' % m.start(), p[:m.start()] + p[m.end():]))
    for m in re.finditer(r'\[([^\]]+)\]', p):
        body = m.group(1)
        parts = re.findall(r'\\.|[^\\]-[^\\]|[^\\]', body.lstrip('^'))
        if len(parts) > 1:
            for i in range(len(parts)):
                new = ('^' if body.startswith('^') else '') + ''.join(parts[:i] + parts[i + 1:])
                out.append(('class without %s at %d' % (parts[i], m.start()), p[:m.start()] + '[' + new + ']' + p[m.end():]))
    for d, q in out:
        try:
            re.compile(q)
        except re.error:
            continue
        yield d, q


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for node in list(ast.walk(tree)):
        for d, new in variants(node):
            t = ast.parse(src)
            # find the twin of node in the fresh tree
            idx = [k for k, x in enumerate(ast.walk(tree)) if x is node][0]
            twin = list(ast.walk(t))[idx]
            t = ast.fix_missing_locations(Replace(twin, copy.deepcopy(new)).visit(t))
            try:
                text = ast.unparse(t)
                compile(text, 'x', 'exec')
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            line = getattr(node, 'lineno', None) or getattr(getattr(node, 'target', None), 'lineno', 0)
            try:
                was, now = ast.unparse(node).splitlines()[0][:90], ast.unparse(new).splitlines()[0][:90]
            except Exception:
                was = now = '?'
            yield {'file': str(path), 'line': line, 'what': d, 'was': was, 'now': now, 'text': text}


def main():
    cmd, files = sys.argv[1], sys.argv[2:]
    todo = []
    for f in files:
        todo += [dict(m, file=f) for m in mutants(pathlib.Path('/repo/scrappybara') / f)]
    if cmd == 'list':
        for m in todo:
            print(m['file'], m['line'], m['what'], '|', m['was'], '->', m['now'])
        print(len(todo))
        return
    lanes = int(os.environ.get('LANES', 4))
    lock = threading.Lock()
    SCR.mkdir(exist_ok=True)
    out = open(str(SCR / ('survivors-%d.jsonl' % os.getpid())), 'a')
    print('%d changes' % len(todo), flush=True)
    killed = collections_counter()

    def lane(k):
        home = SCR / ('v%d-%d' % (os.getpid(), k))
        home.mkdir()
        shutil.copytree(str(V / 'mc'), str(home / 'mc'))
        shutil.copy(str(V / 'known_findings.json'), str(home))
        repo = SCR / ('r%d-%d' % (os.getpid(), k))
        subprocess.run(['git', 'clone', '-q', '/repo', str(repo)], check=True)
        while True:
            with lock:
                if not todo:
                    break
                m = todo.pop(0)
            target = repo / 'scrappybara' / m['file']
            keep = target.read_text()
            target.write_text(m['text'])
            by = None
            t0 = time.time()
            # a change the repository's own tests notice needs no check
            try:
                rc = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + STABLE, cwd=str(repo), timeout=120,
                                    env=dict(os.environ, PYTHONPATH=str(repo)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                rc = 1
            if rc:
                target.write_text(keep)
                killed['tests'] = killed.get('tests', 0) + 1
                continue
            for p in MAP[m['file']]:
                try:
                    r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'mc.run', p, '--tier', 'quick', '--jobs', str(max(1, 8 // lanes))], cwd=str(home),
                                       env=dict(os.environ, VERIF_REPO=str(repo)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    by = (p, rc)
                    if rc != 1:
                        with lock:
                            print('NOANSWER %s:%s %s | %s -> %s by %s rc=%s' % (m['file'], m['line'], m['what'], m['was'], m['now'], p, rc), r.stdout[-300:] if rc != 'timeout' else '', flush=True)
                    break
            target.write_text(keep)
            with lock:
                if by is None:
                    print('SURVIVES %s:%s %s | %s -> %s (%.0fs)' % (m['file'], m['line'], m['what'], m['was'], m['now'], time.time() - t0), flush=True)
                    out.write(json.dumps(m) + '\n')
                    out.flush()
                else:
                    killed[m['file'] + ' ' + by[0]] = killed.get(m['file'] + ' ' + by[0], 0) + 1
        shutil.rmtree(str(home))
        shutil.rmtree(str(repo))
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(json.dumps(killed, indent=0))


def collections_counter():
    return {}


if __name__ == '__main__':
    main()
