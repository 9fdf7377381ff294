"""Exploration driver: runs the chunks of a check on all cores, merges counts, writes the evidence file and
reports violations.

A check module defines
  PROP      the property id
  TITLE     short text
  BOUNDS(tier) -> dict describing the enumerated space (goes to the evidence file)
  setup()   boots the code under test (run once, before forking)
  chunks(tier) -> ordered list of picklable chunk descriptors, smallest bound first
  run(chunk, ctx)      enumerates the chunk completely, judging every execution
  replay(case) -> message or None     re-executes one recorded case
"""
import collections
import contextlib
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pathlib
import resource
import signal
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVID = VERIF / 'evidence'
_pipe, _ready = multiprocessing.Pipe, multiprocessing.connection.wait
MEM = 3500 << 20
KNOWN = VERIF / 'known_findings.json'
_cpu, _wall = time.process_time, time.monotonic


class CaseTimeout(BaseException):
    """not an Exception, so that code under test which catches everything does not swallow it"""


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Ctx:
    """Collects what one chunk covered."""
    MAX_FAILS = 5

    def __init__(self):
        self.cases = 0
        self.steps = 0
        self.nontrivial = 0
        self.states = set()
        self.samples = []
        self.fails = []
        self.stuck = False
        self.extra = collections.Counter()

    @contextlib.contextmanager
    def watch(self, seconds):
        """Raises CaseTimeout when one execution has used that much processor time, or when it seems to wait forever (a
        slow or busy machine alone does not trigger it)."""
        state = [None, 0.0, 0.0]

        def tick(signum, frame):
            now, cpu, wall = (self.cases, self.steps), _cpu(), _wall()
            if now != state[0]:
                state[:] = [now, cpu, wall]
                return
            cpu, wall = cpu - state[1], wall - state[2]
            if cpu >= seconds or wall >= 4 * seconds or (wall >= 1.5 * seconds and cpu < 1):
                raise CaseTimeout('did not finish within the time allowed for one execution')
        old = signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, seconds / 3, seconds / 3)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def call(self, fn, *args, **kw):
        """Runs code under test; returns (True, result) or (False, exception)."""
        self.steps += 1
        try:
            return True, fn(*args, **kw)
        except CaseTimeout as e:
            self.stuck = True
            return False, e
        except (Exception, SystemExit) as e:  # noqa - any exception of the code under test is an observation
            return False, e

    def done(self, outcome, nontrivial=True, sample=None):
        """One execution has been judged and found right."""
        self.cases += 1
        self.states.add(digest(outcome))
        if nontrivial:
            self.nontrivial += 1
            if sample is not None and len(self.samples) < 2:
                self.samples.append(sample)

    def fail(self, case, message):
        self.cases += 1
        self.fails.append((case, message))
        if self.stuck or len(self.fails) >= self.MAX_FAILS:
            raise StopChunk()


class StopChunk(Exception):
    pass


def exc_text(e):
    return '%s: %s' % (type(e).__name__, e)


def _work(args):
    mod, idx, chunk, seconds = args
    ctx = Ctx()
    err = None
    multiprocessing.current_process()._config['daemon'] = False  # the code under test may have child processes
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEM, hard))  # code that never stops collecting gets a MemoryError
    t0 = time.time()
    try:
        with ctx.watch(seconds):
            mod.run(chunk, ctx)
        if ctx.stuck and not ctx.fails:
            raise CaseTimeout()
    except StopChunk:
        pass
    except CaseTimeout:
        ctx.fails.append(({'chunk': chunk}, 'an execution of this chunk does not terminate (no progress for %d s)' % seconds))
    except Exception:
        err = traceback.format_exc()
    return (idx, ctx.cases, ctx.steps, ctx.nontrivial, ctx.states, ctx.samples, ctx.fails, dict(ctx.extra), err,
            time.time() - t0)


class _Workers:
    """Processes forked from this one that work through the tasks in order.  Nothing is shared but a pipe each, so that
    they can be ended at any moment."""

    def __init__(self, n, tasks):
        self.tasks = tasks
        self.next_task = 0
        self.workers = {}  # connection -> (process id, task it works on)
        for _ in range(n):
            self._fork()

    def _fork(self):
        here, there = _pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                here.close()
                for c in self.workers:
                    c.close()
                while True:
                    i = there.recv()
                    if i is None:
                        break
                    there.send(_work(self.tasks[i]))
                code = 0
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        there.close()
        self.workers[here] = [pid, None]
        self._give(here)

    def _give(self, conn):
        if self.next_task < len(self.tasks):
            self.workers[conn][1] = self.next_task
            conn.send(self.next_task)
            self.next_task += 1
        else:
            self.workers[conn][1] = None

    def next(self, timeout):
        """The result of one more task, or None when the time is over"""
        busy = [c for c, (_, t) in self.workers.items() if t is not None]
        for c in _ready(busy, timeout):
            try:
                res = c.recv()
            except (EOFError, OSError):
                pid, t = self.workers.pop(c)
                try:
                    status = os.waitpid(pid, 0)[1]
                except ChildProcessError:
                    status = None
                return (t, 0, 0, 0, set(), [], [], {}, 'the process that worked on chunk %d ended (status %s)' % (t, status), 0.0)
            self._give(c)
            return res
        return None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for c, (pid, _) in self.workers.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for c, (pid, _) in self.workers.items():
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            c.close()


def alone(fn, n, jobs=8):
    """[fn(0), .., fn(n - 1)], each computed in a process of its own"""
    out, live, i = [None] * n, {}, 0
    while i < n or live:
        while i < n and len(live) < jobs:
            here, there = _pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    there.send((True, fn(i)))
                except BaseException:  # noqa
                    there.send((False, traceback.format_exc()))
                finally:
                    os._exit(0)
            there.close()
            live[here] = (pid, i)
            i += 1
        for c in _ready(list(live)):
            pid, k = live.pop(c)
            ok, res = c.recv()
            c.close()
            os.waitpid(pid, 0)
            if not ok:
                raise RuntimeError(res)
            out[k] = res
    return out


def known_findings():
    try:
        return json.loads(KNOWN.read_text())
    except FileNotFoundError:
        return []


def run_check(mod, tier, seed, jobs=None):
    t0 = time.time()
    if hasattr(mod, 'configure'):
        mod.configure(tier)
    mod.setup()
    chunks = list(mod.chunks(tier))
    chunk_s = {'quick': 75, 'thorough': 300}[tier]
    budget = getattr(mod, 'BUDGET', {'quick': 600, 'thorough': 5400})[tier]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1)
    total = collections.Counter()
    states, samples, fails, errs = set(), [], [], []
    extra = collections.Counter()
    done = 0
    capped = False

    def absorb(res):
        nonlocal done
        idx, cases, steps, nontriv, st, smp, fl, ex, err, dt = res
        done += 1
        total['cases'] += cases
        total['steps'] += steps
        total['nontrivial'] += nontriv
        states.update(st)
        if len(samples) < 12:
            samples.extend(smp[:1])
        fails.extend((idx, k, c, m) for k, (c, m) in enumerate(fl))
        extra.update(ex)
        if err:
            errs.append(err)
        if os.environ.get('VERIF_VERBOSE'):
            print('chunk %d: %d cases %.1fs' % (idx, cases, dt), file=sys.stderr)

    tasks = [(mod, i, c, chunk_s) for i, c in enumerate(chunks)]
    if jobs == 1 or len(tasks) == 1:
        for t in tasks:
            absorb(_work(t))
            if fails or errs:
                break
            if time.time() - t0 > budget:
                capped = done < len(tasks)
                break
    else:
        with _Workers(min(jobs, len(tasks)), tasks) as workers:
            while done < len(tasks):
                left = budget - (time.time() - t0)
                res = workers.next(left) if left > 0 else None
                if res is None:
                    capped = True
                    break
                absorb(res)
                if fails or errs:
                    break
    if hasattr(mod, 'finish'):
        ctx2 = Ctx()
        try:
            if not fails:
                mod.finish(ctx2, {'cases': total['cases'], 'extra': extra})
        except StopChunk:
            pass
        fails.extend((10 ** 9, k, c, m) for k, (c, m) in enumerate(ctx2.fails))
    wall = time.time() - t0

    # known findings
    listed = [k for k in known_findings() if k.get('property') == mod.PROP and k.get('status') == 'known']
    reported, new = [], []
    for f in fails:
        hit = None
        for k in listed:
            if k.get('case') == f[2]:
                hit = k
        (reported if hit else new).append((f, hit))
    new = [f for f, _ in new]
    seen = set()
    for _, k in reported:
        if k['what'] not in seen:
            seen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (mod.PROP, k['what']))

    bounds = mod.BOUNDS(tier)
    cov = {
        'states': len(states),
        'transitions': total['steps'],
        'traces_validated_against_impl': total['cases'],
        'distinct_nontrivial': total['nontrivial'],
        'rule': getattr(mod, 'RULE', ''),
        'counted_as': 'states: distinct observed outcomes (64-bit digests); transitions: calls into the code under '
                      'test or scheduling steps; traces: complete executions judged against the oracle',
        'bounds': bounds,
        'chunks_total': len(chunks),
        'chunks_done': done,
        'exhaustive': bool(not capped and not new and not errs and done == len(chunks)),
        'samples': samples[:6],
    }
    if extra:
        cov['counters'] = dict(extra)
    ev = {
        'property': mod.PROP, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': cov, 'assumptions': getattr(mod, 'ASSUMES', []), 'wall_s': round(wall, 3),
        'violations': len(new),
    }
    EVID.mkdir(exist_ok=True)
    (EVID / (mod.PROP + '.json')).write_text(json.dumps(ev, indent=1, ensure_ascii=False, default=str) + '\n')
    print('%s %s: traces=%d states=%d transitions=%d nontrivial=%d chunks=%d/%d%s wall=%.1fs' % (
        mod.PROP, tier, total['cases'], len(states), total['steps'], total['nontrivial'], done, len(chunks),
        ' CAPPED' if capped else '', wall))
    if new:
        new.sort(key=lambda f: (f[0], f[1]))
        out = EVID / 'replay'
        out.mkdir(exist_ok=True)
        for n, (idx, k, case, msg) in enumerate(new[:3]):
            path = out / ('%s-%d.json' % (mod.PROP, n))
            path.write_text(json.dumps({'property': mod.PROP, 'case': case, 'message': msg}, indent=1,
                                       ensure_ascii=False, default=str) + '\n')
            print('  case: %s' % json.dumps(case, ensure_ascii=False, default=str)[:2000])
            print('  %s' % str(msg)[:2000])
            print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
        return 1
    if errs:
        print(errs[0], file=sys.stderr)
        return 2
    if total['cases'] == 0:
        print('nothing was explored', file=sys.stderr)
        return 2
    return 0
