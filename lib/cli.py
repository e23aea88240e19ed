"""Running the command-line tools of /repo under observation.

The tool's source is executed with its own argument vector in a scratch directory, either inside this process
(an audit hook records every file it opens, renames, removes or truncates) or as a separate process.
"""
import os, sys, io, csv, shutil, subprocess, tempfile, hashlib, traceback, contextlib
from lib.harness import REPO, Violation

_code = {}
_events = None
_hooked = False
_WATCHED = ('open', 'os.remove', 'os.rename', 'os.truncate', 'os.link', 'os.symlink', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.utime', 'os.setxattr', 'os.removexattr',
            'shutil.', 'tempfile.', 'subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'mmap.__new__', 'socket.', 'os.chflags', 'os.putenv')


def _hook(event, args):
    if _events is None:
        return
    for w in _WATCHED:
        if event == w or (w[-1] == '.' and event.startswith(w)):
            _events.append((event, args))
            return


def watch():
    """Start recording; returns the list the events go to."""
    global _events, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    _events = []
    return _events


def unwatch():
    global _events
    _events = None


def source(script):
    p = os.path.join(REPO, script)
    if p not in _code:
        with open(p, 'rb') as f:
            _code[p] = compile(f.read(), p, 'exec')
    return _code[p]


STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')


def stub():
    """The FUSE library is not available: a stand-in takes its place."""
    if 'llfuse' not in sys.modules:
        import importlib.util
        spec = importlib.util.spec_from_file_location('llfuse', os.path.join(STUBS, 'llfuse.py'))
        sys.modules['llfuse'] = m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    return sys.modules['llfuse']


class Scratch(object):
    def __init__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix='verif-cli-', dir=base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        p = self.path(name)
        with open(p, 'wb') as f:
            if hasattr(data, 'parts'):       # a volgen.Pieces
                f.truncate(data.total)
                data.pos = 0
                for s, d in data.parts:
                    f.seek(s + data.offset)
                    f.write(d)
            else:
                f.write(data)
        return p

    def state(self):
        res = {}
        for root, dirs, files in os.walk(self.dir):
            for n in files + dirs:
                p = os.path.join(root, n)
                st = os.lstat(p)
                h = None
                if os.path.isfile(p) and st.st_size < 1 << 28:
                    with open(p, 'rb') as f:
                        h = hashlib.sha1(f.read()).hexdigest()
                res[os.path.relpath(p, self.dir)] = (st.st_ino, st.st_size, st.st_mode, st.st_mtime_ns, st.st_nlink, h)
        return res


class Result(object):
    """status: 0, an exit status, or the traceback text of an unhandled exception."""
    def __init__(self):
        self.exc, self.status, self.error, self.stdout, self.stderr, self.events = None, 0, None, '', '', []


def run(script, argv, separate=False, extra=None, transparent=False):
    r = Result()
    if script == 'vsc_mount':
        stub()
    if separate:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO + os.pathsep + STUBS)
        p = subprocess.run([sys.executable, os.path.join(REPO, script)] + [str(a) for a in argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300, cwd='/')
        r.status, r.stdout, r.stderr = p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        if r.status:
            r.error = 'exit status %d: %s' % (r.status, r.stderr[-2000:])
        return r
    code = source(script)
    old_argv, old_out, old_err = sys.argv, sys.stdout, sys.stderr
    from dfir_ntfs.addons import FAT
    old_warn = FAT.WARN_FUNC
    g = {'__name__': '__main__', '__file__': os.path.join(REPO, script)}
    g.update(extra or {})
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [script] + [str(a) for a in argv]
    sys.stdout, sys.stderr = out, err
    r.events = watch()
    try:
        exec(code, g)
    except SystemExit as e:
        r.status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if r.status:
            r.error = 'exit status %d' % r.status
    except Exception as e:
        if transparent and isinstance(e, Violation):
            raise
        r.status, r.exc = 1, e
        r.error = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    finally:
        unwatch()
        sys.argv, sys.stdout, sys.stderr = old_argv, old_out, old_err
        FAT.WARN_FUNC = old_warn
        r.globals = g
        for v in list(g.values()):
            if isinstance(v, io.IOBase) and not v.closed:
                with contextlib.suppress(Exception):
                    v.close()
    r.stdout, r.stderr = out.getvalue(), err.getvalue()
    return r


def read_csv(path):
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.reader(f, dialect='excel'))


def read_text(path):
    with open(path, newline='', encoding='utf-8') as f:
        return f.read()
