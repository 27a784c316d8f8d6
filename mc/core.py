"""Explorer core: exhaustive enumeration of bounded case spaces over worker processes.

A property module (mc/props/pXX.py) provides

    ID, TITLE, RULE, ASSUMPTIONS
    cases(tier)      -> list of JSON-able cases; the complete bounded space, simplest first
    run(case, rec)   -> executes every history the case stands for on the real code, in lock-step
                        with the reference model, reporting to `rec`

`rec` counts distinct model states, transitions and validated traces, and collects failures.
Nothing is sampled: every case of the tier is executed, and a run that is cut short says so.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, 'known_findings.txt')
# processor time one case may use; slow or busy machines do not count against it
CASE_LIMIT = int(os.environ.get('MC_CASE_LIMIT', '75'))
MEMORY = 3 << 30
WALL_LIMIT = 8*CASE_LIMIT   # for a case that waits instead of computing (a deadlock)


class Hang(BaseException):
    """not an Exception, so that neither the code under test nor a check takes it for a refusal"""


def _alarm(*_):
    global _HUNG
    _HUNG = True
    raise Hang('case did not finish within %d s' % CASE_LIMIT)


def h64(x):
    if not isinstance(x, (bytes, str)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Rec:
    def __init__(self):
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = self.evals = 0
        self.failures = []
        self.history = None

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def ev(self, n=1):
        self.evals += n

    def fail(self, key, msg, history=None):
        """key: stable identifier of the failing input / call site; msg: what was observed"""
        if len(self.failures) < 200:
            self.failures.append((key, msg, history if history is not None else self.history))

    def close(self, key, got, want, tol=1e-6, scale=None, msg=''):
        """compare numbers/arrays; scale is the magnitude against which tol is relative"""
        import numpy as np
        self.evals += 1
        try:
            g, w = np.asarray(got, float), np.asarray(want, float)
        except Exception as e:
            self.fail(key, '%s not numeric: %r (%s)' % (msg, got, e))
            return False
        if g.shape != w.shape:
            try:
                g = g.reshape(w.shape)
            except Exception:
                self.fail(key, '%s shape %s, expected %s' % (msg, g.shape, w.shape))
                return False
        s = max(np.abs(w).max() if w.size else 0, scale or 0, 1e-12)
        bad = ~(np.abs(g - w) <= tol*s)
        if bad.any():
            self.fail(key, '%s got %s expected %s (scale %.4g)' % (
                msg, _short(got), _short(want), s))
            return False
        return True

    def true(self, key, cond, msg):
        self.evals += 1
        if not cond:
            self.fail(key, msg)
        return bool(cond)


def _short(x):
    import numpy as np
    s = np.array2string(np.asarray(x, float), precision=6, threshold=30)
    return s if len(s) < 600 else s[:600] + '...'


def load(pid):
    return importlib.import_module('mc.props.' + pid.lower())


_MOD = None
_HUNG = False   # set in a worker once one of its cases hung: it then skips the rest of its batch


def _limits(on):
    # a case that never ends may also never stop allocating
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY if on and hard == resource.RLIM_INFINITY else hard, hard))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT if on else 0, 5 if on else 0)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT if on else 0, 5 if on else 0)


def _init(pid):
    global _MOD
    from . import ops  # noqa: F401  (sets up sys.path and numpy error state)
    _MOD = load(pid)


def run_case(mod, case):
    rec = Rec()
    _limits(True)
    try:
        mod.run(case, rec)
    except (Exception, Hang) as e:
        global _HUNG
        _HUNG |= isinstance(e, MemoryError)
        _limits(False)
        tb = traceback.extract_tb(e.__traceback__)
        where = next(('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb)
                      if '/PyNite/' in f.filename), None)
        site = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name)
        rec.fail('raise:%s:%s:%s' % (type(e).__name__, where or site, json.dumps(case, separators=(",", ":")).replace(" ", "_")),
                 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6)))
    finally:
        _limits(False)
    return rec


def _serve(pid, conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    _init(pid)
    while True:
        conn.send([_work(x) for x in conn.recv()])


class Workers:
    """worker processes that explore batches of cases; a batch whose worker dies is repeated case by case"""

    def __init__(self, pid, jobs, batches):
        self.pid, self.todo, self.ctx = pid, batches[::-1], mp.get_context('fork')
        self.busy = {}   # connection -> (process, batch)
        self.idle = [self.start() for _ in range(jobs)]

    def start(self):
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=_serve, args=(self.pid, there), daemon=True)
        p.start()
        there.close()
        return here, p

    def results(self, deadline):
        """yield result batches; None when the deadline passes"""
        while self.todo or self.busy:
            while self.todo and self.idle:
                conn, p = self.idle.pop()
                b = self.todo.pop()
                self.busy[conn] = p, b
                conn.send(b)
            ready = mp.connection.wait(list(self.busy), max(0, deadline - time.time()))
            if not ready:
                yield None
                return
            for conn in ready:
                p, b = self.busy.pop(conn)
                try:
                    got = conn.recv()
                    self.idle.append((conn, p))
                except (EOFError, OSError):
                    p.join()
                    self.idle.append(self.start())
                    if len(b) > 1:
                        self.todo += [[x] for x in b[::-1]]
                        continue
                    (i, case), = b
                    key = 'crash:' + json.dumps(case, separators=(",", ":")).replace(" ", "_")
                    got = [(i, set(), set(), 0, 0, 0, [(i, case, key, 'the process died (exit code %s)' % p.exitcode, None)], 0)]
                yield got

    def stop(self):
        for conn, p in self.idle + [(c, x[0]) for c, x in self.busy.items()]:
            p.kill()
            p.join()


def _work(args):
    i, case = args
    t = time.time()
    if _HUNG:
        return i, set(), set(), 0, 0, 0, None, 0
    r = run_case(_MOD, case)
    fl = [(i, case, k, m, hh) for k, m, hh in r.failures]
    return i, r.states, r.outcomes, r.transitions, r.traces, r.evals, fl, time.time() - t


def findings(pid):
    """[(exact key, text)] of the recorded, unrepaired findings of a property"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def explore(pid, tier, seed, jobs=None, only=None):
    t0 = time.time()
    from . import ops  # noqa: F401
    global CASE_LIMIT, WALL_LIMIT
    if tier != 'quick' and 'MC_CASE_LIMIT' not in os.environ:
        CASE_LIMIT, WALL_LIMIT = 180, 1440
    mod = load(pid)
    cases = mod.cases(tier)
    if only is not None:
        cases = [cases[i] for i in only]
    budget = float(os.environ.get('MC_BUDGET', '780' if tier == 'quick' else '86400'))
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(cases)))
    known = findings(pid)
    kset = {k for k, _ in known}
    states, outcomes = set(), set()
    tr = traces = evals = done = 0
    new, seen_known, slow = [], {}, []
    capped = False
    # large cases first would hide the shortest counterexample; keep order, small chunks
    chunk = max(1, min(16, len(cases)//(jobs*8) or 1))
    items = list(enumerate(cases))
    pool = Workers(pid, jobs, [items[k:k + chunk] for k in range(0, len(items), chunk)])
    try:
        for batch in pool.results(t0 + budget):
            if batch is None:
                capped = True
                break
            for i, s, o, a, b, c, fl, dt in batch:
                if fl is None:   # skipped after a hang in the same worker
                    capped = True
                    continue
                done += 1
                states |= s
                outcomes |= o
                tr += a
                traces += b
                evals += c
                slow.append((dt, i))
                for f in fl:
                    if f[2] in kset:
                        seen_known.setdefault(f[2], f)
                    else:
                        new.append(f)
            hung = any(f[2].startswith(('raise:Hang', 'raise:MemoryError')) for f in new)
            if len(new) >= 60 or (hung and tier == 'quick') or time.time() - t0 > budget:
                capped = True
            if capped and (new or time.time() - t0 > budget):
                break
    finally:
        pool.stop()
    new.sort(key=lambda f: (f[0], f[2]))
    for k, text in known:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    rc = 0
    shown = set()
    for i, case, k, msg, hist in new:
        if k in shown:
            continue
        shown.add(k)
        if len(shown) > 5:
            break
        rc = 1
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        path = os.path.join(HERE, 'out', '%s-%016x.json' % (pid, h64(k)))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=case, key=k, message=msg, history=hist), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   key: %s\n   %s' % (k, msg.replace('\n', '\n   ')))
    if capped and not new:
        print('note: time budget reached after %d of %d cases' % (done, len(cases)))
    samples = []
    for i in sorted({0, len(cases)//3, (2*len(cases))//3, len(cases) - 1}) if cases else []:
        c = cases[i]
        samples.append(mod.show(c) if hasattr(mod, 'show') else c)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=len(states), transitions=tr, traces_validated_against_impl=traces,
                            evaluations=evals, distinct_nontrivial=len(outcomes), rule=mod.RULE,
                            cases=done, cases_total=len(cases), exhaustive=not capped,
                            samples=samples),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    slow.sort(reverse=True)
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d evaluations=%d outcomes=%d '
          'violations=%d known=%d wall=%.1fs slowest=%.1fs' % (
              pid, tier, done, len(cases), len(states), tr, traces, evals, len(outcomes),
              len(new), len(seen_known), time.time() - t0, slow[0][0] if slow else 0))
    return rc


def replay(pid, path):
    from . import ops  # noqa: F401
    d = json.load(open(path))
    mod = load(pid)
    rec = run_case(mod, d['case'])
    for k, msg, hist in rec.failures:
        print('FAIL %s\n   %s\n   history: %s' % (k, msg, json.dumps(hist)))
    print('%d failures' % len(rec.failures))
    return 1 if rec.failures else 0


def main(argv):
    pid = argv[0].upper()
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(pid, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = [int(x) for x in argv[2].split(',')] if len(argv) > 2 else None
    return explore(pid, tier, seed, only=only)
