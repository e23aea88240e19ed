"""Runtime-monitoring harness: case scheduling, step counting, verdicts, evidence.

A check is a module in /verif/checks with
    PROPERTY  = 'Cxx'
    RULE      = how cases are made and what makes one non-trivial
    REQUIRED  = counters that must be non-zero, otherwise the run is inconclusive
    FAMILIES  = [(name, function(rng, mon), quick_count, thorough_count), ...]

Every case draws all of its choices from `rng`, which is derived from (property,
family, VERIF_SEED, index): a case is replayed from those four values alone.
"""
import os, sys, io, json, resource, time, random, hashlib, signal, traceback, multiprocessing, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


class Violation(Exception):
    def __init__(self, mechanism, detail=''):
        Exception.__init__(self, mechanism)
        self.mechanism = mechanism
        self.detail = detail


class StepBudgetExceeded(BaseException):
    """The code under test executed more source lines than the logical budget of the case."""


class CaseWatchdog(BaseException):
    """The generous wall-clock watchdog fired. Never a verdict by itself."""


def clip(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...[%d]' % len(s)


class Mon(object):
    """What the monitors of one case observe."""

    def __init__(self):
        self.counters = collections.Counter()
        self.sig_parts = []
        self.sample_text = None

    def count(self, name, n=1):
        self.counters[name] += n

    def sig(self, *parts):
        """Describe what makes this case distinct."""
        self.sig_parts.append(repr(parts))

    def sample(self, text):
        if self.sample_text is None:
            self.sample_text = clip(text, 800)

    def fail(self, mechanism, detail=''):
        raise Violation(mechanism, clip(detail, 4000))

    def check(self, cond, mechanism, detail=''):
        self.counters['checks'] += 1
        if not cond:
            self.fail(mechanism, detail() if callable(detail) else detail)

    def equal(self, got, want, mechanism, detail=''):
        """The oracle: the value observed at the API boundary equals the value of the reference model."""
        self.counters['checks'] += 1
        if got != want or (type(got) is not type(want) and (got is None or want is None)):
            d = detail() if callable(detail) else detail
            self.fail(mechanism, 'got %s, expected %s; %s' % (clip(got), clip(want), clip(d, 1500)))

    def raises(self, excs, func, mechanism, detail=''):
        """func must be refused with one of excs."""
        self.counters['checks'] += 1
        try:
            r = func()
        except excs:
            self.counters['refusals'] += 1
            return
        except Exception as e:
            self.fail(mechanism + ':wrong-error', 'refused with %r (%s); %s' % (e, type(e).__name__, clip(detail, 1500)))
        self.fail(mechanism + ':accepted', 'accepted, returned %s; %s' % (clip(r), clip(detail, 1500)))


# --- Input files under observation -------------------------------------------------

class MonFile(io.BytesIO):
    """An in-memory input image which records every access; modifying it is recorded and refused."""

    def __init__(self, data, max_ops=5000000):
        io.BytesIO.__init__(self, data)
        self.ops = 0
        self.bytes_read = 0
        self.lo = None
        self.hi = 0
        self.write_attempts = []
        self.close_count = 0
        self.max_ops = max_ops

    def _account(self, pos, n):
        self.ops += 1
        if self.ops > self.max_ops:
            raise StepBudgetExceeded('input read more than %d times' % self.max_ops)
        if n > 0:
            self.bytes_read += n
            if self.lo is None or pos < self.lo:
                self.lo = pos
            if pos + n > self.hi:
                self.hi = pos + n

    def read(self, size=-1):
        pos = io.BytesIO.tell(self)
        if size is not None and 1 << 33 < size < 1 << 63:
            raise MemoryError('a file on a disk would need %d bytes of memory' % size)
        buf = io.BytesIO.read(self, size)
        self._account(pos, len(buf))
        return buf

    def read1(self, size=-1):
        return self.read(size)

    def readinto(self, b):
        pos = io.BytesIO.tell(self)
        n = io.BytesIO.readinto(self, b)
        self._account(pos, n)
        return n

    def _refuse(self, what):
        self.write_attempts.append(what)
        raise io.UnsupportedOperation(what)

    def write(self, *a):
        self._refuse('write')

    def writelines(self, *a):
        self._refuse('writelines')

    def truncate(self, *a):
        self._refuse('truncate')

    def writable(self):
        return False

    def getbuffer(self):
        return memoryview(io.BytesIO.getvalue(self))


# --- Logical step counting ---------------------------------------------------------

_TOOL = 4

_active = []


class Steps(object):
    """Count source lines and jumps executed in /repo; raise when the budget is exceeded. May be nested."""

    def __init__(self, budget):
        self.budget = budget
        self.n = 0

    def __enter__(self):
        m = sys.monitoring
        _active.append(self)
        if len(_active) > 1:
            return self
        m.use_tool_id(_TOOL, 'verif-steps')
        prefix = os.path.join(REPO, '')

        def count(code):
            if not code.co_filename.startswith(prefix):
                return m.DISABLE
            for s in _active:
                s.n += 1
                if s.n > s.budget:
                    raise StepBudgetExceeded('%d steps' % s.n)

        m.register_callback(_TOOL, m.events.LINE, lambda code, lineno: count(code))
        m.register_callback(_TOOL, m.events.JUMP, lambda code, a, b: count(code))
        m.restart_events()
        m.set_events(_TOOL, m.events.LINE | m.events.JUMP)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        _active.remove(self)
        if _active:
            return False
        m.set_events(_TOOL, 0)
        m.register_callback(_TOOL, m.events.LINE, None)
        m.register_callback(_TOOL, m.events.JUMP, None)
        m.free_tool_id(_TOOL)
        return False


# --- Running cases -----------------------------------------------------------------

CASE_WALL = 60            # Wall-clock watchdog per case (a suspicion, not a verdict).
CASE_CPU = 20             # Processor time per case in seconds (cases take 1.3 at most); reaching it is a suspicion, reaching twice as much again in a second run is a verdict.
CASE_STEPS = 60 * 1000000  # Logical budget used to decide a suspected hang (cases normally take < 1 % of it).


def _alarm(signum, frame):
    raise CaseWatchdog()


class CaseCPU(BaseException):
    """The case used far more processor time than any case does."""


def _prof(signum, frame):
    raise CaseCPU()


class Limits(object):
    """Both watchdogs; they fire again when what they raise gets lost (in a destructor, say)."""

    def __init__(self, wall, cpu):
        self.wall, self.cpu = wall, cpu

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _prof)
        signal.setitimer(signal.ITIMER_REAL, self.wall, 2)
        signal.setitimer(signal.ITIMER_PROF, self.cpu, 2)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, self.old[0])
        signal.signal(signal.SIGPROF, self.old[1])
        return False


def case_rng(prop, family, seed, index):
    return random.Random('%s/%s/%d/%d' % (prop, family, seed, index))


def exc_mechanism(e):
    """Name the API entry (the outermost /repo frame) and the exception type."""
    tb = e.__traceback__
    name = 'harness'
    prefix = os.path.join(REPO, '')
    for frame in traceback.extract_tb(tb):
        if frame.filename.startswith(prefix):
            name = os.path.basename(frame.filename) + ':' + frame.name
            break
    return 'exception:%s:%s' % (type(e).__name__, name)


def run_case(prop, family, func, seed, index):
    """Return (verdict, mon, mechanism, detail); verdict is 'held', 'violated' or 'inconclusive'."""
    mon = Mon()
    try:
        with Limits(CASE_WALL, CASE_CPU):
            func(case_rng(prop, family, seed, index), mon)
        return 'held', mon, None, None
    except Violation as v:
        return 'violated', mon, v.mechanism, v.detail
    except StepBudgetExceeded as e:
        return 'violated', mon, 'unbounded-work', str(e)
    except (CaseWatchdog, CaseCPU):
        pass
    except (Exception, RecursionError) as e:
        return 'violated', mon, exc_mechanism(e), ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]

    # Suspected hang: decide it on logical steps or processor time (never on the wall clock).
    mon2 = Mon()
    try:
        with Limits(CASE_WALL * 4, CASE_CPU * 2):
            with Steps(CASE_STEPS):
                func(case_rng(prop, family, seed, index), mon2)
        return 'inconclusive', mon, 'watchdog', 'slow case'
    except Violation as v:
        return 'violated', mon, v.mechanism, v.detail
    except StepBudgetExceeded as e:
        return 'violated', mon, 'unbounded-work', str(e)
    except CaseCPU:
        return 'violated', mon, 'unbounded-work', 'more than %d s of processor time, twice (cases take at most one or two)' % CASE_CPU
    except CaseWatchdog:
        return 'inconclusive', mon, 'watchdog', 'no verdict within the wall-clock watchdog'
    except Exception as e:
        return 'violated', mon, exc_mechanism(e), ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]


def _job(args):
    modname, family, seed, lo, hi, deadline = args
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    mod = load_check(modname)
    known = known_findings(mod.PROPERTY)
    func = dict((f[0], f[1]) for f in mod.FAMILIES)[family]
    counters = collections.Counter()
    sigs = set()
    samples = []
    bad = []
    inconclusive = []
    done = 0
    for i in range(lo, hi):
        if deadline is not None and time.time() > deadline:
            break
        verdict, mon, mechanism, detail = run_case(mod.PROPERTY, family, func, seed, i)
        done += 1
        counters.update(mon.counters)
        if mon.sig_parts:
            sigs.add(hashlib.sha1('|'.join([family] + mon.sig_parts).encode('utf-8', 'surrogatepass')).digest()[:8])
        if mon.sample_text is not None and len(samples) < 1:
            samples.append('%s[%d]: %s' % (family, i, mon.sample_text))
        if verdict == 'violated':
            bad.append((family, i, mechanism, detail))
            if mechanism in known:
                bad = [x for n, x in enumerate(bad) if x[2] not in [y[2] for y in bad[:n]]]
            elif len([x for x in bad if x[2] not in known]) >= 3 or mechanism.startswith('unbounded-work'):
                break
        elif verdict == 'inconclusive':
            inconclusive.append((family, i, mechanism, detail))
            if len(inconclusive) >= 2:
                break
    return family, done, counters, sigs, samples, bad, inconclusive


def load_check(modname):
    import importlib
    sys.path[:] = [p for p in sys.path if p != VERIF]
    sys.path.insert(1, VERIF)
    return importlib.import_module('checks.' + modname)


def known_findings(prop):
    """Entries 'known: property=<id> mechanism=<mechanism> | <what fails>' of KNOWN_FINDINGS.txt."""
    res = {}
    try:
        f = open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'))
    except FileNotFoundError:
        return res
    with f:
        for l in f:
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split('mechanism=', 1)[1]
                mech, __, what = rest.partition(' | ')
                res[mech.strip()] = what.strip()
    return res


def main(modname, argv):
    t0 = time.time()
    tier = 'quick'
    replay = None
    workers = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    only = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--replay':
            replay = a.pop(0)
        elif x == '--family':
            only = a.pop(0)
        elif x == '--jobs':
            workers = int(a.pop(0))
        else:
            raise SystemExit('unknown argument ' + x)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = load_check(modname)
    prop = mod.PROPERTY

    import dfir_ntfs
    where = os.path.dirname(os.path.dirname(os.path.abspath(dfir_ntfs.__file__)))
    if where != os.path.abspath(REPO):
        print('ERROR: dfir_ntfs imported from', where)
        return 3

    if replay is not None:
        with open(replay) as f:
            r = json.load(f)
        func = dict((f[0], f[1]) for f in mod.FAMILIES)[r['family']]
        verdict, mon, mechanism, detail = run_case(prop, r['family'], func, r['seed'], r['index'])
        print(verdict, mechanism or '')
        if detail:
            print(detail)
        return {'held': 0, 'violated': 1}.get(verdict, 2)

    if getattr(mod, 'PREPARE', None) is not None:
        mod.PREPARE(tier)

    jobs = []
    for fam in mod.FAMILIES:
        name, func, nq, nt = fam
        if only is not None and name != only:
            continue
        n = nq if tier == 'quick' else nt
        n = max(1, int(n * scale)) if n else 0
        chunk = max(1, (n + workers * 6 - 1) // (workers * 6))
        for lo in range(0, n, chunk):
            jobs.append((modname, name, seed, lo, min(n, lo + chunk), None))

    # Interleave the families so that a violation in any of them shows up early.
    jobs.sort(key=lambda j: (j[3], j[1]))

    counters = collections.Counter()
    sigs = set()
    samples = []
    per_family = collections.Counter()
    bad = []
    inconclusive = []
    ctx = multiprocessing.get_context('fork')
    known = known_findings(prop)
    with ctx.Pool(workers) as pool:
        for family, done, c, s, smp, b, inc in pool.imap_unordered(_job, jobs):
            per_family[family] += done
            counters.update(c)
            sigs |= s
            if sum(1 for x in samples if x.startswith(family + '[')) < 2 and len(samples) < 24:
                samples.extend(smp)
            bad.extend(b)
            inconclusive.extend(inc)
            fresh = [x for x in bad if x[2] not in known]
            if len(fresh) >= 5 or any(x[2].startswith('unbounded-work') for x in fresh):
                pool.terminate()
                break

    unlisted = [x for x in bad if x[2] not in known]
    listed = [x for x in bad if x[2] in known]

    evaluations = sum(per_family.values())
    missing = []
    if only is None and not bad:
        missing = [r for r in getattr(mod, 'REQUIRED', []) if not counters.get(r)]

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:12] or ['(none)'],
            'cases_per_family': dict(per_family),
            'observed': dict(sorted(counters.items())),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    seen = set()
    for family, i, mechanism, detail in listed:
        if mechanism not in seen:
            seen.add(mechanism)
            print('KNOWN-FINDING: property=%s %s' % (prop, known[mechanism]))

    print('%s tier=%s seed=%d cases=%d distinct=%d checks=%d wall=%.1fs %s' % (
        prop, tier, seed, evaluations, len(sigs), counters.get('checks', 0), time.time() - t0, dict(per_family)))

    if unlisted:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for family, i, mechanism, detail in sorted(unlisted, key=lambda x: (x[2], x[0], x[1])):
            if mechanism in shown:
                continue
            shown.add(mechanism)
            path = os.path.join(rdir, '%s-%s-%d-%d.json' % (prop, family, seed, i))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'family': family, 'seed': seed, 'index': i, 'mechanism': mechanism,
                           'detail': detail, 'command': 'cd /verif && ./check %s --replay %s' % (prop, path)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  family=%s case=%d mechanism=%s' % (family, i, mechanism))
            print('  ' + clip(detail or '', 1500).replace('\n', '\n  '))
        return 1

    if inconclusive:
        print('INCONCLUSIVE property=%s: %r' % (prop, inconclusive[:3]))
        return 2
    if missing:
        print('INCONCLUSIVE property=%s: monitors never reached: %s' % (prop, ', '.join(missing)))
        return 2
    return 0
