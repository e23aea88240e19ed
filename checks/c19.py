"""C19: hostile input ends in bounded time with a library error at worst."""
import os, io, traceback, warnings, struct
import collections, io, random, sys
from dfir_ntfs import MFT, ShadowCopy
from dfir_ntfs.addons import FAT, exFAT
from lib import harness, subjects, mutate, cli, vssgen, ntfs, hostile
from lib.harness import Mon, MonFile, Violation, Steps, StepBudgetExceeded, REPO
from checks import c21

PROPERTY = 'C19'
RULE = ('each case builds a sound input of one kind (file table, volume, journal, log, shadow-copy volume, FAT, exFAT, GPT, MBR, tracking log, memory image, single record, attribute value, extended attribute, mapping pairs, boot sector), damages it - bit flips, boundary '
        'values in fields, rewritten links (cluster chains, directory clusters, next-block offsets, parents, extension records, sequence numbers), copied, swapped, cut or spliced blocks; checksums re-sealed where there are some - and takes it through the parsers '
        'and every getter under a counter of executed source lines, file reads and memory; tools run on damaged files as well. An exception that is neither of the library nor ValueError / NotImplementedError, or work above a bound linear in the size of the input, is a violation. '
        'Distinct = distinct damaged inputs.')
REQUIRED = ['inputs', 'refused', 'items', 'accepted_inputs', 'directed', 'generic', 'tool_runs', 'steps', 'loops']
ASSUMPTIONS = ['Attribute values are decoded through attribute records (the value classes themselves wrap any bytes).', 'The work bound is %s lines of source plus %s per byte of input: loops without an end and exponential work exceed it, polynomial slowdowns may not.' % (8000000, 400)]

LISTED = None


def listed():
    global LISTED
    if LISTED is None:
        LISTED = harness.known_findings(PROPERTY)
    return LISTED


def mechanism(e):
    prefix = os.path.join(REPO, '')
    fs = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(prefix)]
    if not fs:
        return 'exception:%s:harness' % type(e).__name__
    if isinstance(e, RecursionError):
        name, __ = collections.Counter((os.path.basename(f.filename), f.name) for f in fs).most_common(1)[0]
        return 'recursion:%s:%s' % name
    return 'exception:%s:%s:%s' % (type(e).__name__, os.path.basename(fs[-1].filename), fs[-1].name)


def judge(mon, errors, ctx):
    errors = sorted(errors, key=lambda e: mechanism(e) in listed())
    mon.count('checks')
    for e in errors:
        raise Violation(mechanism(e), harness.clip('%s; %s' % (ctx, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]), 4000))


def budget(size):
    return 8000000 + 400 * size


def declared(e):
    """Whether the work is spent on a stream that is declared to be (almost) entirely sparse and absurdly long."""
    tb = e.__traceback__
    while tb is not None:
        o = tb.tb_frame.f_locals.get('self')
        for x in (o, getattr(o, 'fragmented_file', None), getattr(o, 'file_object', None)):
            runs = getattr(x, 'data_runs', None)
            if isinstance(runs, (list, tuple)) and sum(r[1] for r in runs if isinstance(r, tuple) and r[0] is None) * getattr(x, 'cluster_size', 512) > 1 << 30:
                return True
        tb = tb.tb_next
    return False


def observe(mon, name, do, files, rng, size, ctx):
    log = subjects.Log()
    st = Steps(budget(size))
    try:
        with st, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            do(log, rng, *files)
    except StepBudgetExceeded as e:
        fs = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.join(REPO, ''))]
        where = '%s:%s' % (os.path.basename(fs[0].filename), fs[0].name) if fs else name
        if declared(e):
            mon.fail('declared-sparse-size', '%s, %d bytes: %s; %s; %s' % (name, size, e, ctx, [(f.name, f.lineno) for f in fs[-6:]]))
        mon.fail('unbounded-work:' + where, '%s, %d bytes: %s; %s; %s' % (name, size, e, ctx, [(f.name, f.lineno) for f in fs[-6:]]))
    judge(mon, log.errors, ctx)
    mon.count('inputs')
    mon.count('steps', st.n)
    mon.count('items', log.items)
    mon.count('refused', log.refused)
    mon.count('accepted_inputs', 1 if log.items else 0)
    for c in log.calls:
        mon.counters['calls'] += 1


def damaged(rng, mon, name, data, extra=None):
    k = rng.random()
    d = None
    if k < 0.6:
        if name == 'fat':
            d = mutate.fat(rng, data)
        elif name == 'exfat':
            d = mutate.exfat(rng, data)
        elif name == 'gpt':
            d = mutate.gpt(rng, data, 512 if data[512:520] == b'EFI PART' else 4096)
        elif name in ('mft', 'frs'):
            size = 4096 if struct.unpack('<L', data[28:32])[0] == 4096 else 1024
            d = mutate.mft(rng, data, size)
        elif name == 'logfile':
            d = mutate.logfile(rng, data)
        elif name == 'volume':
            d = volume(rng, data)
    if d is not None:
        mon.count('directed')
        if rng.random() < 0.2:
            x = mutate.mutate(rng, bytes(d[0]))
            d = x[0], d[1] + x[1]
        return bytes(d[0]), d[1]
    mon.count('generic')
    d = mutate.mutate(rng, data)
    return bytes(d[0]), d[1]


def volume(rng, data):
    """Damage within a volume: boot sector fields, records, index buffers."""
    off = 0 if data[3:7] == b'NTFS' else 512
    k = rng.random()
    if k < 0.15:
        b = bytearray(data)
        i, w = rng.choice([(11, 2), (13, 1), (48, 8), (56, 8), (64, 1), (68, 1), (40, 8), (3, 4), (510, 2), (64, 4), (14, 2), (24, 2), (21, 1)])
        v = mutate.interesting(rng, w, len(b))
        mutate.put(b, off + i, w, v)
        return b, ['boot %d = %d' % (i, v)]
    recs = []
    i = data.find(b'FILE')
    while i >= 0 and len(recs) < 200:
        recs.append(i)
        i = data.find(b'FILE', i + 512)
    if not recs:
        return None
    at = rng.choice(recs[:1] + recs)
    size = 4096 if data[at + 28:at + 30] == b'\x00\x10' else 1024
    r, what = mutate.mft(rng, data[at:at + size], size)
    b = bytearray(data)
    b[at:at + size] = r
    return b, ['at %d' % at] + what


def case(name):
    gen = subjects.ALL[name]

    def run(rng, mon):
        data, do = gen(rng)
        if isinstance(data, tuple):
            files = [f for f in data if f is not None]
            what = mutate.vss(rng, files)
            mon.count('directed')
            size = sum(len(f.blocks) for f in files) * 0x4000
            for f in files:
                f.strict = True
            mon.sig([sorted((k, hash(d)) for k, d in f.blocks.items()) for f in files])
        else:
            d, what = damaged(rng, mon, name, data)
            size = len(d)
            files = [MonFile(d, max_ops=200000 + size)]
            mon.sig(name, d)
        mon.count('loops', 1)
        observe(mon, name, do, files, rng, size, '%s: %s' % (name, '; '.join(what[:12])))
        mon.sample('%s of %d bytes: %s' % (name, size, '; '.join(what[:5])))
    return run


def case_random(rng, mon):
    """Arbitrary bytes, with a magic number at most."""
    name = rng.choice(sorted(set(subjects.ALL) - {'vss'}))
    data, do = subjects.ALL[name](rng)
    n = rng.choice([0, 1, 16, 42, 511, 512, 1024, 4096, 8192, 20000])
    d = bytearray(ntfs.rnd_bytes(rng, n))
    keep = rng.choice([0, 0, 4, 8, 16, 64, 512])
    d[:keep] = data[:min(keep, n)]
    observe(mon, name, do, [MonFile(bytes(d))], rng, n, 'random %s of %d bytes, %d kept' % (name, n, keep))
    mon.count('generic')
    mon.sig(name, bytes(d))


# --- Tools ---

def tool_run(rng, mon, script, argv, sep):
    argv = [str(a) for a in argv]
    inputs = [a for a in argv if a.startswith('/') and os.path.isfile(a)]
    size = 0
    what = ''
    for p in inputs:
        n = os.path.getsize(p)
        size += min(n, 1 << 24)
        if n < 1 << 24 and (rng.random() < 0.6 or len(inputs) == 1):
            with open(p, 'rb') as f:
                data = f.read()
            name = {'--mft': 'mft', '--log': 'logfile', '--usn': 'usn'}.get(argv[0], 'x') if os.path.basename(p) != 'mft' else 'mft'
            if script == 'fat_parser':
                name = 'exfat' if data[3:8] == b'EXFAT' else 'fat'
            try:
                d, w = damaged(rng, mon, name, data)
            except (IndexError, struct.error, ZeroDivisionError, ValueError):
                d, w = mutate.mutate(rng, data)
            with open(p, 'wb') as f:
                f.write(d)
            what += '%s: %s; ' % (os.path.basename(p), '; '.join(w[:8]))
    st = Steps(4 * budget(size))
    try:
        with st:
            r = cli.run(script, argv, separate=False)
    except StepBudgetExceeded as e:
        cli.unwatch()
        fs = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.join(REPO, ''))]
        v = Violation('declared-sparse-size' if declared(e) else 'unbounded-work:%s' % (fs[-1].name if fs else script), '%s %r: %s; %s' % (script, argv, e, what))
        v.judged = True
        raise v
    mon.count('tool_runs')
    mon.count('tool_steps', st.n)
    if r.exc is not None:
        mon.count('tool_refusals')
        if not isinstance(r.exc, subjects.ALLOWED + (OSError,)) and not subjects.impossible_position(r.exc):
            v = Violation('tool-' + mechanism(r.exc), '%s %r: %s; %s' % (script, argv, r.error, what))
            v.judged = True
            raise v
    raise Done()


class Done(Exception):
    pass


def case_tool(f):
    def run(rng, mon):
        c21.HOOK = tool_run
        try:
            f(rng, mon)
        except Done:
            pass
        except Violation as v:
            if getattr(v, 'judged', False):
                raise
        finally:
            c21.HOOK = None
        mon.sig(rng.random())
    return run


# --- Directed inputs for the recorded findings (and inputs next to them which have to work) ---

def within(mon, size, what, f, mech, limit=None, deep=None):
    """Run f under the work budget; mech names what the input is made for."""
    st = Steps(limit or budget(size))
    try:
        with st:
            r = f()
    except StepBudgetExceeded as e:
        mon.fail(mech, '%s: %s' % (what, e))
    except subjects.ALLOWED:
        r = None
    except Exception as e:
        if deep and isinstance(e, RecursionError):
            mon.fail('recursion:' + deep, what)
        judge(mon, [e], what)
    mon.count('steps', st.n)
    mon.count('inputs')
    mon.count('directed')
    mon.sig(what)
    return r


def walk(mod, img):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return len(list(mod.FileSystemParser(io.BytesIO(img)).walk()))


MAKERS = {'FAT': (FAT, hostile.fat16, 3), 'exFAT': (exFAT, hostile.exfat, 1)}


def case_shared(which):
    mod, make, per = MAKERS[which]

    def run(rng, mon):
        img = make(hostile.diamonds(5))
        n = within(mon, len(img), '%s: 5 levels of directories sharing clusters' % which, lambda: walk(mod, img), 'work-on-few-shared-directories:' + which)
        mon.check(n and n >= 2, 'few-shared-directories:' + which, lambda: 'items: %r' % n)
        img = make(hostile.diamonds(40))
        within(mon, len(img), '%s: 40 levels of directories, each with two entries for the same subdirectory' % which, lambda: walk(mod, img), 'shared-directories:' + which, 3000000)
    return run


def case_deep(which):
    mod, make, per = MAKERS[which]

    def run(rng, mon):
        img = make(hostile.nested(120))
        n = within(mon, len(img), '%s: 120 nested directories' % which, lambda: walk(mod, img), 'work-on-nested-directories:' + which)
        mon.equal(n, 120 * per, 'nested-directories:' + which)
        img = make(hostile.nested(3000))
        n = within(mon, len(img), '%s: 3000 nested directories' % which, lambda: walk(mod, img), 'work-on-nested-directories:' + which, None, 'nested-directories:' + which)
        if n is not None:
            mon.equal(n, 3000 * per, 'nested-directories:' + which)
    return run


def select(n):
    v = hostile.many_shadows(n)
    p = ShadowCopy.ShadowParser(v, 0)
    p.select_shadow(1)
    return len(p.read(4096))


def case_stack(rng, mon):
    n = within(mon, 1 << 20, '60 shadow copies', lambda: select(60), 'work-on-many-shadow-copies')
    mon.equal(n, 4096, 'many-shadow-copies')
    # The same as 1000 shadow copies with the default limit of nested calls, at a twentieth of the time.
    depth = 0
    f = sys._getframe()
    while f is not None:
        depth += 1
        f = f.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + 250)
    try:
        within(mon, 1 << 26, '250 shadow copies with 250 nested calls left (1000 with the default limit)', lambda: select(250), 'work-on-many-shadow-copies', None, 'shadow-copies')
    finally:
        sys.setrecursionlimit(old)


def case_declared(kind):
    def run(rng, mon):
        for n in (1, 3, 1 << 40):
            if kind == 'table':
                img = hostile.sparse_table(n)

                def do():
                    return len(list(MFT.MasterFileTableParser(MFT.FileSystemParser(io.BytesIO(img), 0)).file_records()))
            else:
                img, rec = hostile.sparse_index(n)

                def do():
                    for a in MFT.FileRecordSegment(rec).attributes():
                        if type(a) is MFT.AttributeRecordNonresident:
                            return sum(len(list(b.index_entries())) for b in a.value_decoded(io.BytesIO(img), 0, 4096).index_buffers())
            what = '%s with a sparse run of %d clusters' % (kind, n)
            r = within(mon, len(img), what, do, 'declared-sparse-size' if n > 3 else 'work-on-sparse-run', 3000000)
            if n <= 3:
                mon.equal(r, 12 if kind == 'table' else 1, 'sparse-run', what)
    return run


COUNTS = {'mft': 900, 'usn': 800, 'logfile': 1500, 'volume': 700, 'vss': 1500, 'fat': 1500, 'exfat': 700, 'gpt': 800, 'mbr': 800, 'move': 400, 'mem': 150, 'value': 3000, 'wsl': 1500, 'frs': 3000, 'runs': 3000, 'boot': 2000}
FAMILIES = [(n, case(n), q, q * 20) for n, q in COUNTS.items()]
FAMILIES += [('random', case_random, 1500, 30000)]
FAMILIES += [('tool-' + f[0], case_tool(f[1]), max(60, f[2] // 12), f[2] * 2) for f in c21.FAMILIES]
FAMILIES += [('shared-' + k, case_shared(k), 1, 1) for k in MAKERS] + [('deep-' + k, case_deep(k), 1, 1) for k in MAKERS]
FAMILIES += [('stack', case_stack, 1, 1), ('declared-table', case_declared('table'), 1, 1), ('declared-index', case_declared('index'), 1, 1)]
