"""Common machinery of the checks: TLC runner, conformance verdicts, evidence, findings."""
import concurrent.futures as cf
import json
import logging
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

logging.disable(logging.CRITICAL)
ROOT = os.environ['VERIF_ROOT']
SCRATCH = os.environ['VP_SCRATCH']
SPEC = os.path.join(ROOT, 'spec')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    """The check itself failed (not the code under test)."""


class Timeout(Exception):
    """Code under test did not return in time."""


class limit:
    """Bound the time of a call into the code under test."""

    def __init__(self, seconds=20):
        self.seconds = seconds

    def __enter__(self):
        self.on = True

        def h(sig, frame):
            if not self.on:
                return
            raise Timeout(f'no return within {self.seconds} s')
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, .05)

    def __exit__(self, *a):
        self.on = False
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(
            r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = map(int, m[-1]) if m else (0, 0)
        self.prints = list()
        for line in out.splitlines():
            if line.startswith('"@@') and line.endswith('"'):
                self.prints.append(json.loads(json.loads(line)[2:]))
        self.violated = re.findall(r'(?:Invariant|property|Property) (\S+) (?:is|was) violated', out)
        self.violated += re.findall(r'Temporal properties were violated', out)
        self.complete = 'Model checking completed. No error has been found.' in out


class Check:

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(f'{pid}-{self.seed}')
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = list()
        self.extra = dict()
        self.assumptions = list()
        self.nviol = 0
        self._reported = set()
        self._known_seen = set()
        self.known = self._load_known()
        self.n_run = 0
        self._viol_dir = os.path.join(ROOT, 'replays', pid)

    # ---- tiers
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- findings
    def _load_known(self):
        path = os.path.join(ROOT, 'known_findings.txt')
        known = dict()
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        return known

    def violation(self, key, what, detail=None):
        """Report that the property is broken; `key` identifies the failing input."""
        key = re.sub(r'\s+', '_', str(key))
        if key in self.known:
            if key not in self._known_seen:
                self._known_seen.add(key)
                print(f'KNOWN-FINDING: property={self.pid} {key}: {self.known[key]}')
            return
        self.nviol += 1
        if key in self._reported or len(self._reported) >= 10:
            return
        self._reported.add(key)
        os.makedirs(self._viol_dir, exist_ok=True)
        path = os.path.join(
            self._viol_dir, f'{self.tier}_{len(self._reported)}.json')
        with open(path, 'w') as f:
            json.dump(dict(
                property=self.pid, key=key, what=what, detail=detail,
                seed=self.seed, tier=self.tier), f, indent=1, default=repr)
        print(f'VIOLATION property={self.pid} replay={path}')
        print(f'  {key}: {what}'[:1500])

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, args=(),
            heap='3g', expect_ok=True, count=True):
        self.n_run += 1
        d = os.path.join(SCRATCH, f'tlc{os.getpid()}_{self.n_run}_{module}')
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        gc = '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC'
        cmd = ['java', gc, f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={SCRATCH}/tmp',
               '-cp', CP, 'tlc2.TLC', '-metadir', os.path.join(d, 'md'),
               '-noGenerateSpecTE', '-workers', str(workers), '-config', 'M.cfg',
               *args, f'{module}.tla']
        t = time.time()
        try:
            r = subprocess.run(
                cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timeout on {module}')
        res = Tlc(r.stdout, r.returncode, time.time() - t)
        shutil.rmtree(d, ignore_errors=True)
        if expect_ok and not res.complete:
            raise MachineryError(
                f'TLC failed on {module} (rc={r.returncode}):\n' + '\n'.join(
                    l for l in r.stdout.splitlines()
                    if not re.match(r'Parsing|Semantic|Linting|"@@', l))[-4000:])
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        return res

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of the specification itself."""
        r = self.tlc(module, cfg, **kw)
        self.extra.setdefault('model_checking_runs', list()).append(
            dict(module=module, distinct_states=r.distinct,
                 states_generated=r.generated, wall_s=round(r.wall, 1)))
        return r

    def generate(self, module, cfg, **kw):
        """Behaviours printed by TLC as JSON lines (PrintT("@@" \\o ToJson(..)))."""
        r = self.model_check(module, cfg, **kw)
        return r.prints

    def validate(self, module, records, cfg=None, jobs=8, min_chunk=20,
                 timeout=800, heap='3g', weight=None):
        """Check recorded observations against `module`.

        The module defines `Recs`, one initial state per record, and prints
        "@@" \\o ToJson([i |-> n, bad |-> {..clauses..}]) for rejected records.
        Returns a list with, for each record, the list of violated clauses.
        """
        if not records:
            return list()
        cfg = cfg or 'INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n'
        n = len(records)
        k = max(1, min(jobs, n // min_chunk))
        chunks = [list(range(j, n, k)) for j in range(k)]

        def run(j):
            path = os.path.join(SCRATCH, f'rec_{module}_{os.getpid()}_{time.time_ns()}_{j}.ndjson')
            with open(path, 'w') as f:
                for i in chunks[j]:
                    f.write(json.dumps(records[i]) + '\n')
            r = self.tlc(module, cfg, env=dict(TRACE=path), timeout=timeout,
                         heap=heap, count=False)
            os.remove(path)
            return r
        with cf.ThreadPoolExecutor(k) as ex:
            rs = list(ex.map(run, range(k)))
        bad = [list() for _ in range(n)]
        for j, r in enumerate(rs):
            self.states += r.distinct
            self.transitions += r.generated
            if r.distinct < len(chunks[j]):
                raise MachineryError(
                    f'{module}: {r.distinct} states for {len(chunks[j])} records')
            for pr in r.prints:
                if 'i' in pr and 'bad' in pr:
                    bad[chunks[j][pr['i'] - 1]].extend(sorted(map(str, pr['bad'])))
        self.traces += n
        self.extra.setdefault('conformance_runs', list()).append(
            dict(module=module, records=n, rejected=sum(map(bool, bad)),
                 wall_s=round(max(r.wall for r in rs), 1)))
        return bad

    def binding(self, module, corrupted, **kw):
        """Demonstrate that the specification rejects corrupted observations."""
        tr, st, tn = self.traces, self.states, self.transitions
        bad = self.validate(module, corrupted, **kw)
        self.traces, self.states, self.transitions = tr, st, tn
        self.extra['conformance_runs'].pop()
        b = self.extra.setdefault('binding_selftest', dict(corrupted=0, rejected=0))
        b['corrupted'] += len(corrupted)
        b['rejected'] += sum(map(bool, bad))

    def sample(self, x, cap=3):
        if len(self.samples) < cap:
            s = json.dumps(x, default=repr)
            self.samples.append(s if len(s) < 3000 else s[:3000] + '...')

    def bump(self, name, k=1):
        d = self.extra.setdefault('exercised', dict())
        d[name] = d.get(name, 0) + k

    def finish(self):
        cov = dict(
            states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples)
        cov.update(self.extra)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed,
            level=self.level, coverage=cov, assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        print(f'{self.pid} {self.tier}: states={self.states} transitions={self.transitions} '
              f'traces={self.traces} violations={self.nviol} wall={ev["wall_s"]}s')
        return 1 if self.nviol else 0


def main(pid, body):
    """Run `body(check)`; exit 0 (held), 1 (violation), 2 (machinery error)."""
    chk = Check(pid)
    try:
        body(chk)
        rc = chk.finish()
    except MachineryError:
        traceback.print_exc()
        # a violation already found is still reported
        rc = 1 if chk.nviol else 2
        if rc == 1:
            chk.finish()
    except BaseException as e:
        traceback.print_exc()
        report_crash(chk, e)
        rc = 1 if chk.nviol else 2
        if rc == 1:
            chk.finish()
    sys.stdout.flush()
    os._exit(rc)


def report_crash(chk, e):
    """Report an exception that left the code under test, or its results.

    The checks call the code within its contract, and are quiet about it
    on inputs that it accepts; so an exception that the harness does not
    expect is a behaviour that the property excludes: either it was
    raised by the code under test, or its result has not the form that
    the property requires.  What is not about the behaviour (a name that
    is missing, files, memory) is an error of the machinery.
    """
    if not isinstance(e, (ValueError, TypeError, LookupError, AssertionError,
                          AttributeError, ArithmeticError, RuntimeError)):
        return
    if isinstance(e, AttributeError) and str(e).startswith('module '):
        return
    text = ''.join(traceback.format_exception(e))
    inside = f'{SCRATCH}/src/tulip/' in text
    where = 'raised by' if inside else 'malformed result of'
    chk.violation(
        'crash', f'{where} the code under test: {type(e).__name__}: {e}'[:300],
        text[-6000:])


def guarded(fn, *a, seconds=20, **kw):
    """Call code under test: ('ok', value) or ('exc', type name, message)."""
    try:
        with limit(seconds):
            return ('ok', fn(*a, **kw))
    except Timeout as e:
        return ('exc', 'Timeout', str(e))
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:300])


_PWORK = list()


def _pcall(j):
    fn, items = _PWORK[-1]
    return fn(items[j])


def pmap(fn, items, jobs=8, chunk=8):
    """Map over worker processes (forked), in order."""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 2 * jobs:
        return [fn(x) for x in items]
    ctx = mp.get_context('fork')
    _PWORK.append((fn, items))
    try:
        with ctx.Pool(jobs) as pool:
            return pool.map(_pcall, range(len(items)), chunksize=chunk)
    finally:
        _PWORK.pop()
