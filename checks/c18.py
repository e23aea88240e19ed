"""C18: evidence is never modified."""
import io, os, errno, random, hashlib, contextlib, warnings
from lib.harness import Mon, Violation, StepBudgetExceeded, CaseWatchdog, Steps
from lib import cli, subjects, vssgen
from checks import c21

PROPERTY = 'C18'
RULE = ('library: every kind of input (file tables, journals, logs, volumes, shadow copies, FAT, exFAT, partition tables, tracking and memory images) is presented as a writable file object and taken through every parser and getter; a monitor on the file '
        'object records writes and truncations and compares the content. tools: every mode of the command-line tools runs on files, sound and damaged, and with wrong arguments; an audit hook records every file opened, removed or changed, and the scratch '
        'directory is compared before and after (inode, size, mode, times, content). mounts: the shadow-copy file system is driven by a stand-in for the kernel through random sequences of operations; every modifying operation must be refused with EROFS. '
        'Distinct = distinct inputs (library, tools) or operation sequences (mounts).')
REQUIRED = ['library_runs', 'library_items', 'log_with_tails', 'tool_runs', 'tool_damaged', 'tool_failed', 'opens', 'usage_runs', 'mounts', 'mounts_two', 'refused_operations', 'refused_opens', 'mounted_reads', 'view_writes']
ASSUMPTIONS = ['Buffers (bytearray) passed by a caller are not evidence: the update sequence array is applied in place by design.', 'llfuse is replaced by a stand-in; the kernel side of the mount is not exercised.']

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGING = ('write', 'writelines', 'truncate', 'flush_changes', 'save', 'commit')


class Evidence(io.BytesIO):
    """A writable file: modifications succeed, and are recorded."""

    def __init__(self, data, max_ops=2000000):
        io.BytesIO.__init__(self, data)
        self.attempts = []
        self.ops = 0
        self.max_ops = max_ops

    def read(self, size=-1):
        self.ops += 1
        if self.ops > self.max_ops:
            raise StepBudgetExceeded('reads')
        return io.BytesIO.read(self, size)

    def write(self, b):
        self.attempts.append(('write', io.BytesIO.tell(self), len(b)))
        return io.BytesIO.write(self, b)

    def writelines(self, ls):
        self.attempts.append(('writelines',))
        return io.BytesIO.writelines(self, ls)

    def truncate(self, *a):
        self.attempts.append(('truncate',) + a)
        return io.BytesIO.truncate(self, *a)


def watch_sparse(f, attempts):
    f.write = lambda b: attempts.append(('write', f.pos, len(b))) or len(b)
    f.truncate = lambda *a: attempts.append(('truncate',) + a)
    f.writelines = lambda *a: attempts.append(('writelines',))


def outcome_opens(mon, events, outputs=(), cwd=''):
    """No file is opened for writing except the outputs; nothing is removed, renamed or changed."""
    for ev, args in events:
        if ev == 'open':
            path, mode, flags = args
            mon.count('opens')
            w = isinstance(flags, int) and flags & WRITE_FLAGS
            if not w:
                continue
            p = path if isinstance(path, (str, bytes)) else ''
            p = os.fsdecode(p)
            mon.check(p and os.path.realpath(os.path.join(cwd, p)) in outputs, 'opened-for-writing', lambda: 'opened for writing: %r, mode %r, flags %#o' % (path, mode, flags))
        elif ev.startswith('tempfile.') or ev in ('mmap.__new__', 'os.putenv') or ev.startswith('socket.'):
            continue
        else:
            mon.fail('changing-operation', '%s %r' % (ev, args))


def damaged(rng, data):
    b = bytearray(data)
    for __ in range(rng.choice([1, 3, 10, 40])):
        if b:
            i = rng.randrange(len(b))
            b[i] = rng.choice([0, 0xff, b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)])
    if rng.random() < 0.2:
        del b[rng.randrange(len(b) + 1):]
    return bytes(b)


def case_library(name):
    gen = subjects.ALL[name]

    def case(rng, mon):
        data, do = gen(rng)
        log = subjects.Log((Exception,))
        if isinstance(data, tuple):
            files = [f for f in data if f is not None]
            attempts = []
            before = [dict(f.blocks) for f in files]
            for f in files:
                watch_sparse(f, attempts)
        else:
            if rng.random() < 0.3:
                data = damaged(rng, data)
            files = [Evidence(data)]
            attempts = files[0].attempts
        ev = cli.watch()
        try:
            with Steps(4000000):
                with warnings.catch_warnings():
                    do(log, rng, *files)
        except StepBudgetExceeded:
            mon.count('cut_short')
        finally:
            cli.unwatch()
        mon.check(not attempts, 'input-written', lambda: 'the %s file object was modified: %r' % (name, attempts[:5]))
        outcome_opens(mon, ev)
        if isinstance(data, tuple):
            for f, b in zip(files, before):
                mon.check(f.blocks == b, 'input-changed', name)
            mon.sig(sorted(before[0])[:50], len(before[0]), rng.random())
        else:
            mon.check(files[0].getvalue() == data, 'input-changed', name)
            mon.sig(hashlib.sha1(data).digest())
        if name == 'logfile':
            mon.count('log_with_tails', int(data[0x2000:0x2004] == b'RCRD'))
        mon.count('library_runs')
        mon.count('library_items', log.items)
        mon.sample('%s, %d items, %d calls refused' % (name, log.items, log.refused))
    return case


def case_views(rng, mon):
    """File-like views over a volume: whatever modifying call they accept must not reach the volume."""
    from dfir_ntfs import MFT, ShadowCopy
    if rng.random() < 0.5:
        data, __ = subjects.volume(rng)
        f = Evidence(data)
        attempts = f.attempts
        made = []
        for off in (0, 512):
            with contextlib.suppress(Exception):
                made.append(MFT.FileSystemParser(f, off))
        runs = [(rng.randrange(0, 20), rng.randint(1, 4)) for __ in range(rng.randint(1, 4))]
        with contextlib.suppress(Exception):
            made.append(MFT.FragmentedFile(f, runs, 512 * sum(n for __, n in runs), 512))
        same = lambda: f.getvalue() == data
    else:
        (v, s), __ = subjects.vss(rng)
        attempts = []
        for x in (v, s):
            if x is not None:
                watch_sparse(x, attempts)
        before = dict(v.blocks)
        p = ShadowCopy.ShadowParser(v, 0) if s is None else ShadowCopy.ShadowParserTwoVolumes(v, s, 0, None, 0)
        with contextlib.suppress(Exception):
            p.select_shadow(1)
        made = [p]
        same = lambda: v.blocks == before
    for view in made:
        for __ in range(8):
            n = rng.choice(CHANGING + ('seek', 'read', 'close', 'flush', 'tell'))
            if n == 'close' and rng.random() < 0.7:
                continue
            m = getattr(view, n, None)
            mon.count('view_writes')
            if m is None:
                continue
            args = {'write': (b'\x00' * rng.choice([1, 512]),), 'writelines': ([b'x'],), 'truncate': (rng.choice([0, 512]),), 'seek': (rng.choice([0, 512, 5]),), 'read': (rng.choice([0, 1, 600]),)}.get(n, ())
            with contextlib.suppress(Exception):
                m(*args)
        mon.check(not attempts, 'input-written-by-view', lambda: '%s: %r' % (type(view).__name__, attempts[:5]))
        mon.check(same(), 'input-changed-by-view', lambda: type(view).__name__)
    mon.sig(rng.random())


# --- Tools ---

def observed_run(rng, mon, script, argv, sep):
    argv = [str(a) for a in argv]
    paths = [a for a in argv if a.startswith('/')]
    inputs = [a for a in paths if os.path.isfile(a)]
    outputs = set(os.path.realpath(a) for a in paths if not os.path.lexists(a))
    root = os.path.dirname((inputs or paths or ['/dev/shm/verif-none/x'])[0])
    if inputs and rng.random() < 0.3:
        # Damage one input.
        p = rng.choice(inputs)
        size = os.path.getsize(p)
        if size < 1 << 24:
            with open(p, 'rb') as f:
                d = damaged(rng, f.read())
            with open(p, 'wb') as f:
                f.write(d)
            mon.count('tool_damaged')
    if inputs and rng.random() < 0.3:
        os.chmod(rng.choice(inputs), 0o444)
    if outputs and rng.random() < 0.2:
        with open(sorted(outputs)[0], 'wb') as f:
            f.write(b'an earlier report')
    scratch = cli.Scratch.__new__(cli.Scratch)
    scratch.dir = root
    before = scratch.state()
    try:
        with Steps(20000000):
            r = cli.run(script, argv, separate=sep)
    except (StepBudgetExceeded, RecursionError):
        cli.unwatch()
        raise Violation('cut-short', '')
    after = scratch.state()
    outs = set(os.path.relpath(o, os.path.realpath(root)) for o in outputs)
    mon.count('tool_runs')
    mon.count('tool_failed', 1 if r.error else 0)
    problem = None
    try:
        for k, x in before.items():
            if k in outs or k in ('.',):
                continue
            if os.path.isdir(os.path.join(root, k)):
                mon.check(k in after and after[k][2] == x[2], 'input-changed', '%s %s: directory %r: %r -> %r' % (script, argv, k, x, after.get(k)))
            else:
                mon.check(after.get(k) == x, 'input-changed', '%s %s: %r: %r -> %r' % (script, argv, k, x, after.get(k)))
        mon.check(not set(after) - set(before) - outs, 'unnamed-file-created', lambda: '%s %s: %r' % (script, argv, sorted(set(after) - set(before) - outs)))
        outcome_opens(mon, r.events, outputs)
    except Violation as v:
        v.judged = True
        raise
    return r


def case_tool(case):
    def run(rng, mon):
        c21.HOOK = observed_run
        try:
            case(rng, mon)
        except Violation as v:
            if getattr(v, 'judged', False):
                raise
            mon.count('rows_not_judged')      # property C21 judges the reports
        except (OSError, ValueError, IndexError, KeyError, StopIteration, UnicodeError):
            mon.count('rows_not_judged')      # the report of a damaged input
        finally:
            c21.HOOK = None
        mon.sig(rng.random())
    return run


def case_usage(rng, mon):
    """Wrong or missing arguments, missing files, a directory in place of a file."""
    script = rng.choice(['ntfs_parser', 'fat_parser', 'vsc_mount'])
    modes = {'ntfs_parser': ['--mft', '--usn', '--log', '--indx', '--indexes', '--all-mft', '--mem', '--move', '--dir-indexes', '--help', '-h', ''], 'fat_parser': ['--dir', '0', '-h', ''],
             'vsc_mount': ['--mount', '--mount-altfill', '--mount-two', '--list', '--help']}[script]
    with open(os.path.join(cli.REPO, script), encoding='utf-8') as f:
        import re
        modes += re.findall(r"'(--[a-z-]+)'", f.read())
    with cli.Scratch() as s:
        os.mkdir(s.path('d'))
        files = [s.put('f%d' % i, bytes(rng.getrandbits(8) for __ in range(rng.choice([0, 10, 512, 5000])))) for i in range(3)]
        for __ in range(4):
            argv = [rng.choice(modes)] if rng.random() < 0.9 else []
            used = set()
            for __ in range(rng.randrange(7)):
                a = rng.choice(files + [s.path('missing'), s.path('d'), '0', '512', '-1', 'x', '1'])
                # A file that is named twice could be the output as well as an input.
                if a in files and a in used:
                    continue
                used.add(a)
                argv.append(a)
            if argv and argv[-1] in files:      # It would be the output: named, so it may be written.
                argv[-1] = s.path('new')
            before = s.state()
            cwd = os.getcwd()
            os.chdir(s.path('d'))
            try:
                r = cli.run(script, argv, separate=False)
            finally:
                os.chdir(cwd)
            after = s.state()
            out = argv[-1] if argv else ''
            for k, x in before.items():
                if s.path(k) == out:
                    continue
                if k == 'd':
                    mon.check(k in after, 'input-changed', k)
                    continue
                # The output of a mode with fewer arguments than given: only the last of the arguments that the mode reads.
                mon.check(after.get(k) == x, 'input-changed', '%s %r: %r: %r -> %r' % (script, argv, k, x, after.get(k)))
            mon.check(not [k for k in after if k not in before and s.path(k) not in argv and os.path.basename(k) not in argv], 'unnamed-file-created', lambda: '%s %r %r' % (script, argv, sorted(after)))
            outcome_opens(mon, r.events, set(os.path.realpath(os.path.join(s.path('d'), a)) for a in argv if a and a not in files), s.path('d'))
            mon.count('usage_runs')
            if rng.random() < 0.5:
                break
    mon.sig(script, tuple(argv))


# --- Mounts ---

def case_mount(rng, mon):
    fuse = cli.stub()
    two = rng.random() < 0.35
    sim = vssgen.Simulation(rng, Mon(), two=two, snapshots=rng.choice([1, 2, 3]), ops=rng.choice([3, 8]))
    offset = rng.choice([0, 0, 512, 4096])
    v, st = sim.files(offset, 0)
    done = []
    problems = []

    def client(ops):
        ROOT = fuse.ROOT_INODE
        names = [b'image.raw', b'x', b'', b'..']
        for __ in range(rng.choice([5, 20, 60])):
            i = rng.choice([ROOT, ROOT + 1, ROOT + 2, 0, 77])
            fh = rng.choice([1, 2, 3, 0])
            nm = rng.choice(names)
            op = rng.choice(['create', 'fsync', 'fsyncdir', 'link', 'mkdir', 'mknod', 'rename', 'rmdir', 'setattr', 'symlink', 'unlink', 'write', 'open', 'open', 'read', 'getattr', 'lookup', 'readdir', 'opendir', 'statfs', 'release', 'access'])
            args = {'create': (i, nm, 0o644, rng.choice([os.O_RDWR, os.O_WRONLY, os.O_RDONLY]), None), 'fsync': (fh, rng.random() < .5), 'fsyncdir': (fh, rng.random() < .5), 'link': (i, i, nm, None), 'mkdir': (i, nm, 0o755, None),
                    'mknod': (i, nm, 0o644, 0, None), 'rename': (i, nm, i, rng.choice(names), None), 'rmdir': (i, nm, None), 'setattr': (i, fuse.EntryAttributes(), None, fh, None), 'symlink': (i, nm, b'/t', None), 'unlink': (i, nm, None),
                    'write': (fh, rng.choice([0, 512, 5]), b'zz'), 'open': (i, rng.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_APPEND, os.O_APPEND | os.O_WRONLY, os.O_WRONLY | os.O_TRUNC, os.O_RDONLY | os.O_NONBLOCK]), None),
                    'read': (fh, rng.choice([0, 3, 512, 16384]), rng.choice([0, 1, 512, 20000])), 'getattr': (i, None), 'lookup': (i, nm, None), 'readdir': (fh, rng.choice([0, 0, 1])), 'opendir': (i, None), 'statfs': (None,), 'release': (fh,),
                    'access': (i, 2, None)}[op]
            res = err = None
            m = getattr(ops, op, None)
            try:
                if m is None:
                    err = errno.ENOSYS        # llfuse answers so for an operation that is not provided
                else:
                    res = m(*args)
                    if op == 'readdir':
                        res = list(res)
            except fuse.FUSEError as e:
                err = e.errno
            except Exception as e:
                err = e
            done.append((op, args[:2], err))
            modifying = op in ('create', 'link', 'mkdir', 'mknod', 'rename', 'rmdir', 'setattr', 'symlink', 'unlink', 'write')
            if modifying:
                mon.count('refused_operations')
                if err != errno.EROFS:
                    problems.append(('accepted:' + op, 'operation %s%r: answered %r, error %r' % (op, args[:4], res, err)))
            elif op == 'open' and args[1] & (os.O_WRONLY | os.O_RDWR | os.O_APPEND):
                mon.count('refused_opens')
                if not (err == errno.EROFS or (err == errno.ENOENT and i != ROOT + 1)):
                    problems.append(('accepted:open', 'open of %d with flags %#o: answered %r, error %r' % (i, args[1], res, err)))
            elif op == 'open' and i == ROOT + 1:
                if err is not None or res != 2:
                    problems.append(('refused:open', 'open for reading: %r %r' % (res, err)))
            elif op == 'read' and err is None:
                mon.count('mounted_reads')

    with cli.Scratch() as s:
        os.mkdir(s.path('mnt'))

        def put(name, f):
            p = s.path(name)
            with open(p, 'wb') as out:
                out.truncate(f.total)
                for b, d in f.blocks.items():
                    out.seek(f.offset + b * 0x4000)
                    out.write(d[:max(0, f.total - f.offset - b * 0x4000)])
            return p
        a = put('volume', v)
        pos = rng.choice(sim.stores).pos if rng.random() < 0.95 else 99
        if st is None:
            argv = [rng.choice(['--mount', '--mount-altfill']), a, offset, pos, s.path('mnt')]
        else:
            argv = ['--mount-two', a, put('storage', st), offset, 0, pos, s.path('mnt')]
            mon.count('mounts_two')
        before = {k: x for k, x in s.state().items()}
        fuse.client = client
        del fuse.mounted[:]
        try:
            r = cli.run('vsc_mount', argv)
        finally:
            fuse.client = None
        after = s.state()
        if not done:
            mon.count('not_mounted:' + (r.error or '').strip().split('\n')[-1][:60])
        mon.check(r.error is None or not done, 'mount-failed', lambda: r.error)
        mon.check(before == after, 'input-changed', lambda: '%r: %r -> %r after %r' % (argv, before, after, done[-5:]))
        outcome_opens(mon, r.events)
        for m, d in problems[:1]:
            mon.fail(m, d)
        if done:
            mon.count('mounts')
    mon.sig(tuple((o, str(a), str(e)) for o, a, e in done))
    mon.sample('%s: %r' % (argv[0], done[:6]))


FAMILIES = [('library-' + n, case_library(n), q, q * 15) for n, q in (('mft', 250), ('usn', 200), ('logfile', 500), ('volume', 200), ('vss', 250), ('fat', 200), ('exfat', 150), ('gpt', 60), ('mbr', 100), ('move', 60), ('mem', 60))]
FAMILIES += [('views', case_views, 300, 6000)]
FAMILIES += [('tool-' + f[0], case_tool(f[1]), max(40, f[2] // 15), f[2]) for f in c21.FAMILIES]
FAMILIES += [('usage', case_usage, 600, 9000), ('mount', case_mount, 250, 5000)]
