"""Small property-based testing harness on top of Hypothesis.

A check module (/verif/checks/cNN.py) defines
    PROPERTY = 'CNN'; RULE = '...'
    SUITES   = [Suite(name, strategy, run, quick=N, thorough=M), ...]
    PROBES   = {name: fn}       # optional: regression/known-finding probes
run(case, ctx) executes the real code on the (JSON-able) case and raises
Violation (or AssertionError / any exception) if the property is broken.
"""
import hashlib, json, os, sys, time, traceback, random, signal
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase, strategies as st, seed as hseed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class StopSearch(BaseException):
    pass


class Suite:
    def __init__(self, name, strategy, run, quick=400, thorough=4000, hang=150, weight=1.0):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.hang = quick, thorough, hang


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


class Ctx:
    """Per-worker statistics, and the per-case record of what was exercised."""
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.counts = {}
        self.samples = []
        self._nt = False
        self.note = None

    def begin(self):
        self._nt = False
        self.note = None

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def end(self, suite, case, text):
        self.evaluations += 1
        if self._nt:
            h = hashlib.blake2b((suite + text).encode(), digest_size=8).hexdigest()
            if h not in self.hashes:
                self.hashes.add(h)
                k = len(self.hashes)
                if k in (3, 40, 200):
                    self.samples.append({'suite': suite, 'case': case if len(text) < 1500 else text[:1500] + '...'})


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], 'big')


class Heart:
    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o644)

    def write(self, suite, text):
        d = json.dumps({'suite': suite, 't': time.time(), 'case': text}).encode() + b'\n'
        os.ftruncate(self.fd, 0)
        os.pwrite(self.fd, d, 0)


def run_in_fork(fn):
    """Runs fn in a forked child; raises Violation when it raises or the child dies."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                fn()
                code = 0
            except BaseException as e:
                os.write(w, ('%s: %s' % (type(e).__name__, e)).encode()[:4000])
                code = 1
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.time()
    out = b''
    status = None
    import select
    while True:
        rl, _, _ = select.select([r], [], [], 0.2)
        if rl:
            d = os.read(r, 65536)
            if not d:
                break
            out += d
        if time.time() - t0 > 60:
            os.kill(pid, 9)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise Violation('process died with signal %d' % os.WTERMSIG(status))
    if os.WEXITSTATUS(status):
        raise Violation(out.decode(errors='replace') or 'child failed')


def explore(suite, n, sd, ctx, heart, deadline, shrink_s=45, isolate=False, stop_on_fail=None):
    """Runs up to n generated cases.  Returns None or a dict describing the failure."""
    best = {'len': None}
    state = {'first_fail': None, 'i': 0}

    def body(case):
        now = time.time()
        if state['first_fail'] is None and now > deadline:
            raise StopSearch()
        if state['first_fail'] is not None and now - state['first_fail'] > shrink_s:
            raise StopSearch()
        text = canon(case)
        heart.write(suite.name, text)
        ctx.begin()
        try:
            if isolate:
                run_in_fork(lambda: suite.run(case, ctx))
            else:
                suite.run(case, ctx)
        except StopSearch:
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
                best['index'] = ctx.evaluations
            if best['len'] is None or len(text) <= best['len']:
                best.update(len=len(text), case=case, msg='%s: %s' % (type(e).__name__, str(e)[:3000]),
                            tb=traceback.format_exc()[-3000:])
            raise
        if state['first_fail'] is None:
            ctx.end(suite.name, case, text)

    strat = suite.strategy() if callable(suite.strategy) else suite.strategy
    f = given(strat)(body)
    f = settings(max_examples=max(1, n), database=None, deadline=None, report_multiple_bugs=False,
                 suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                 print_blob=False)(f)
    f = hseed(sd)(f)
    try:
        f()
    except StopSearch:
        pass
    except Exception as e:
        if best['len'] is None:
            best.update(len=0, case=None, msg='harness: %s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
    return best if best['len'] is not None else None
