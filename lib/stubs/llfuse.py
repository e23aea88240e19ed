"""A stand-in for llfuse (not installed here): records what is mounted and lets a check act as the kernel."""
ROOT_INODE = 1
default_options = frozenset(['big_writes', 'nonempty', 'default_permissions', 'no_splice_read', 'splice_write', 'splice_move'])
mounted = []
client = None


class FUSEError(Exception):
    def __init__(self, errno):
        Exception.__init__(self, errno)
        self.errno_ = errno
        self.errno = errno


class EntryAttributes(object):
    def __init__(self):
        pass


class StatvfsData(object):
    pass


class Operations(object):
    def __init__(self, *a, **k):
        pass

    def init(self):
        pass

    def destroy(self):
        pass


def init(ops, mountpoint, options=default_options):
    mounted.append((ops, mountpoint, set(options)))
    ops.init()


def main(workers=None, handle_signals=True):
    if client is not None:
        client(mounted[-1][0])


def close(unmount=True):
    mounted[-1][0].destroy()
