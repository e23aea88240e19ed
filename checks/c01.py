"""C01: file-like view of a nonresident stream vs. a flat byte-array model, over operation histories."""
import io
from lib.harness import MonFile, clip
from lib import ntfs
from dfir_ntfs import MFT

PROPERTY = 'C01'
RULE = ('each case builds a volume of random bytes, a random run list (contiguous, out-of-order, overlapping and sparse runs), a stream '
        'size inside the allocation and a random history of seek/tell/read calls; every return value and position is compared with a '
        'flat byte array. A case is non-trivial when it reads across a run boundary or the end of the stream.')
REQUIRED = ['reads', 'cross_run_reads', 'sparse_bytes_read', 'reads_hitting_end', 'seek_set', 'seek_cur', 'seek_end', 'refused_seeks', 'reads_past_end', 'reads_default_size', 'via_file_record', 'huge_reads', 'large_reads', 'reads_over_16_mib']


def build(rng, mon):
    cs = rng.choice([1, 2, 3, 7, 512, 512, 1024, 4096, 4096, 65536])
    nruns = rng.choice([0, 1, 2, 3, 5, 8, 13, 40]) if cs < 4096 else rng.choice([1, 2, 3, 6])
    maxlen = 9 if cs <= 4096 else 2
    vol_clusters = rng.randint(1, 64) if cs <= 4096 else rng.randint(1, 12)
    offset = rng.choice([0, 0, 512, 1, 4096 * 3 + 17, cs * 2])
    volume = ntfs.rnd_bytes(rng, vol_clusters * cs)
    runs = []
    model = bytearray()
    bounds = []
    sparse = []
    for i in range(nruns):
        n = rng.randint(1, maxlen)
        if rng.random() < 0.25:
            runs.append((None, n))
            sparse.append((len(model), len(model) + n * cs))
            model += b'\x00' * (n * cs)
        else:
            n = min(n, vol_clusters)
            lcn = rng.randint(0, vol_clusters - n)
            if runs and rng.random() < 0.15 and runs[-1][0] is not None and runs[-1][0] + runs[-1][1] + n <= vol_clusters:
                lcn = runs[-1][0] + runs[-1][1]
            runs.append((lcn, n))
            model += volume[lcn * cs:(lcn + n) * cs]
        bounds.append(len(model))
    alloc = len(model)
    r = rng.random()
    if alloc == 0:
        size = 0
    elif r < 0.25:
        size = alloc
    elif r < 0.5:
        size = max(0, alloc - rng.randint(0, min(cs, alloc)))
    elif r < 0.6:
        size = max(0, min(alloc, rng.choice(bounds) + rng.choice([-1, 0, 1])))
    else:
        size = rng.randint(0, alloc)
    image = ntfs.rnd_bytes(rng, offset) + volume + ntfs.rnd_bytes(rng, rng.choice([0, cs, 100]))
    return cs, runs, size, bytes(model[:size]), image, offset, bounds, sparse


def history(rng, mon, f, cs, size, model, bounds, sparse, nops, what):
    pos = 0
    log = []
    interesting = [0, size, cs, max(0, size - 1), size + 1] + bounds + [max(0, b - 1) for b in bounds]
    for __ in range(nops):
        r = rng.random()
        if r < 0.45:
            k = rng.random()
            if k < 0.15:
                n = rng.choice([None, -1, -1, -5, 'default'])
            elif k < 0.3:
                n = rng.choice([0, 1, 2, cs, cs + 1, max(1, cs - 1)])
            elif k < 0.5:
                n = max(0, rng.choice(interesting) - pos)
            else:
                n = rng.randint(0, max(1, min(2 * size + 2, 300000)))
            log.append(('read', n))
            if n == 'default':
                got = f.read()
                want = model[pos:]
                mon.count('reads_default_size')
            else:
                got = f.read(n)
                want = model[pos:] if n is None or n < 0 else model[pos:pos + n]
            mon.count('reads')
            if bytes(got) != want:
                mon.fail('read-bytes', '%s read(%r) at %d returned %d bytes, model %d bytes, equal=%s; size=%d history=%r' % (
                    what, n, pos, len(got), len(want), bytes(got) == want, size, log[-6:]))
            mon.counters['checks'] += 1
            if any(pos < b < pos + len(want) for b in bounds):
                mon.count('cross_run_reads')
            if n not in ('default', None) and n > 0 and pos < size and pos + n > size:
                mon.count('reads_hitting_end')
            if pos > size:
                mon.count('reads_past_end')
            for lo, hi in sparse:
                if pos < hi and pos + len(want) > lo:
                    mon.count('sparse_bytes_read', min(hi, pos + len(want)) - max(lo, pos))
            pos += len(want)
            mon.equal(f.tell(), pos, 'position-after-read', lambda: '%s history=%r' % (what, log[-6:]))
        elif r < 0.95:
            whence = rng.choice([0, 0, 1, 2, 'default'])
            base = {0: 0, 1: pos, 2: size, 'default': 0}[whence]
            target = rng.choice(interesting) if rng.random() < 0.4 else rng.randint(-2, size + 10)
            if rng.random() < 0.1:
                target = rng.randint(-100, -1)
            off = target - base
            log.append(('seek', off, whence))
            args = (off,) if whence == 'default' else (off, whence)
            if target < 0:
                mon.raises((ValueError, OSError), lambda: f.seek(*args), 'negative-seek', '%s history=%r' % (what, log[-6:]))
                mon.count('refused_seeks')
            else:
                ret = f.seek(*args)
                mon.equal(ret, target, 'seek-result', lambda: '%s history=%r' % (what, log[-6:]))
                pos = target
                mon.count({0: 'seek_set', 1: 'seek_cur', 2: 'seek_end', 'default': 'seek_set'}[whence])
            mon.equal(f.tell(), pos, 'position-after-seek', lambda: '%s history=%r' % (what, log[-6:]))
        elif r < 0.97:
            log.append(('seek', 'bad whence'))
            mon.raises((ValueError, OSError), lambda: f.seek(0, rng.choice([3, -1, 7])), 'bad-whence', what)
            mon.count('refused_seeks')
            mon.equal(f.tell(), pos, 'position-after-bad-seek', what)
        else:
            mon.equal(f.tell(), pos, 'tell', lambda: '%s history=%r' % (what, log[-6:]))
    f.close()
    return log


def case_direct(rng, mon):
    cs, runs, size, model, image, offset, bounds, sparse = build(rng, mon)
    vol = MonFile(image)
    given = list(runs)
    f = MFT.FragmentedFile(vol, offset, cs, runs, size)
    what = 'cs=%d runs=%s size=%d offset=%d' % (cs, clip(runs, 200), size, offset)
    log = history(rng, mon, f, cs, size, model, bounds, sparse, rng.choice([5, 20, 60]), what)
    mon.equal(runs, given, 'run-list-changed', what)
    mon.sig(cs, runs, size, log[:10])
    mon.sample('%s; ops=%s' % (what, clip(log, 300)))


def case_record(rng, mon):
    """The same through the path a user takes: a file record's run list and size."""
    while True:
        cs, runs, size, model, image, offset, bounds, sparse = build(rng, mon)
        if cs >= 512 and runs and not any(lcn == 0 for lcn, __ in runs[1:]) and len(runs) <= 40:
            break
    name = rng.choice([None, None, 'stream', 'Zone.Identifier'])
    attrs = [ntfs.attr_resident(ntfs.SI, ntfs.si_value())]
    if name is None or rng.random() < 0.5:
        other = ntfs.attr_resident(ntfs.DATA, b'other', name='aaa' if name is None else None)
    else:
        other = b''
    d = ntfs.attr_nonresident(ntfs.DATA, runs, size, name=name, cluster_size=cs, rng=rng)
    attrs += [d, other] if rng.random() < 0.5 else [other, d]
    rec = MFT.FileRecord(MFT.FileRecordSegment(ntfs.frs(attrs, number=40, seq=3)), [])
    got_runs = rec.get_data_runs(name)
    mon.equal([tuple(x) for x in got_runs], runs, 'record-runs', '')
    got_size = rec.get_data_size(name)
    mon.equal(got_size, size, 'record-size', '')
    f = MFT.FragmentedFile(MonFile(image), offset, cs, got_runs, got_size)
    log = history(rng, mon, f, cs, size, model, bounds, sparse, 20, 'record cs=%d runs=%s size=%d' % (cs, clip(runs, 200), size))
    mon.count('via_file_record')
    mon.sig('rec', cs, runs, size)


def case_interleaved(rng, mon):
    """Several views over one volume object, interleaved: positions must stay independent."""
    cs, runs, size, model, image, offset, bounds, sparse = build(rng, mon)
    if not runs:
        runs = [(None, 3)]
        size = 2 * cs + 1
        model = b'\x00' * size
    vol = MonFile(image)
    runs2 = list(reversed(runs))
    model2 = b''.join(b'\x00' * (n * cs) if lcn is None else image[offset + lcn * cs:offset + (lcn + n) * cs] for lcn, n in runs2)[:size]
    fs = [[MFT.FragmentedFile(vol, offset, cs, runs, size), model, 0], [MFT.FragmentedFile(vol, offset, cs, runs2, size), model2, 0]]
    for __ in range(40):
        x = rng.choice(fs)
        if rng.random() < 0.3:
            x[2] = rng.randint(0, size)
            x[0].seek(x[2])
        n = rng.randint(0, 3 * cs)
        got = x[0].read(n)
        want = x[1][x[2]:x[2] + n]
        mon.check(bytes(got) == want, 'interleaved-read', 'cs=%d runs=%s pos=%d n=%d got %d want %d' % (cs, runs, x[2], n, len(got), len(want)))
        x[2] += len(want)
        mon.equal(x[0].tell(), x[2], 'interleaved-position')
        if rng.random() < 0.2:
            vol.seek(rng.randint(0, len(image)))
        mon.count('interleaved_reads')
    mon.sig('il', cs, runs, size)


class Endless(object):
    """A huge volume whose bytes follow from their position."""

    def __init__(self, size, key):
        self.size, self.key, self.pos = size, key, 0

    def at(self, pos, n):
        n = max(0, min(n, self.size - pos))
        first = pos >> 4
        out = b''.join(((k * 0x9E3779B97F4A7C15 ^ self.key) & MASK).to_bytes(16, 'little') for k in range(first, (pos + n + 15 >> 4)))
        return out[pos - (first << 4):][:n]

    def seek(self, o, whence=0):
        self.pos = o if whence == 0 else self.pos + o if whence == 1 else self.size + o
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        b = self.at(self.pos, self.size - self.pos if n is None or n < 0 else n)
        self.pos += len(b)
        return b


MASK = (1 << 128) - 1


def case_huge(rng, mon):
    """Cluster numbers, run lengths, stream sizes and positions far beyond 32 bits."""
    cs = rng.choice([512, 4096, 4096, 65536])
    vol = Endless(1 << 60, rng.getrandbits(128))
    offset = rng.choice([0, 1 << 20, (1 << 33) + 512])
    runs = []
    for __ in range(rng.choice([1, 2, 5, 30])):
        n = rng.choice([1, 2, 255, 256, 65536, rng.randint(1, 1 << 20), rng.randint(1, 1 << 34), 1 << 32, (1 << 31) - 1])
        runs.append((None if rng.random() < 0.25 else rng.choice([rng.randrange(1 << 20), rng.randrange(1 << 32), rng.randrange(1 << 43), (1 << 32) - 1, 1 << 32, 1 << 31]), n))
    total = sum(n for __, n in runs)
    size = total * cs - rng.randrange(cs)
    f = MFT.FragmentedFile(vol, offset, cs, runs, size)
    starts, v = [], 0
    for lcn, n in runs:
        starts.append(v)
        v += n
    points = [0, size, 1 << 32, (1 << 31), total * cs // 2] + [x * cs for x in starts]
    what = 'cs=%d runs=%s size=%d offset=%d' % (cs, clip(runs, 300), size, offset)
    for __ in range(12):
        pos = max(0, min(size, rng.choice(points) + rng.randint(-2 * cs, 2 * cs) if rng.random() < 0.7 else rng.randrange(size)))
        n = rng.randint(1, 3 * cs)
        n = min(n, 20000)
        want = bytearray()
        p = pos
        end = min(size, pos + n)
        while p < end:
            c = p // cs
            i = max(k for k in range(len(runs)) if starts[k] <= c)
            lcn, cnt = runs[i]
            k = min(end, (starts[i] + cnt) * cs) - p
            want += b'\x00' * k if lcn is None else vol.at(offset + lcn * cs + p - starts[i] * cs, k)
            p += k
        how = rng.choice([0, 1, 2])
        f.seek({0: pos, 1: pos - f.tell(), 2: pos - size}[how], how)
        got = f.read(n)
        mon.check(bytes(got) == bytes(want), 'huge-read', lambda: '%s position %d, %d bytes: got %d %s, want %s' % (what, pos, n, len(got), clip(bytes(got[:24])), clip(bytes(want[:24]))))
        mon.equal(f.tell(), end if pos < size else pos, 'huge-position', what)
        mon.count('huge_reads')
    mon.sig('huge', cs, runs, size)


def case_large(rng, mon):
    """Single reads of many megabytes."""
    cs = 2 << 20 if rng.random() < 0.6 else 65536
    n = rng.randint(2, 24) if cs > 65536 else rng.randint(15, 90)
    unit = ntfs.rnd_bytes(rng, 1 << 16)
    volume = b''.join(i.to_bytes(8, 'little') + unit[8:] for i in range(n * cs >> 16))
    order = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(order)
    runs = [(None if rng.random() < 0.1 else k, 1) for k in order]
    model = b''.join(b'\x00' * cs if k is None else volume[k * cs:(k + 1) * cs] for k, __ in runs)
    size = len(model) - rng.choice([0, 0, 1, 777])
    model = model[:size]
    f = MFT.FragmentedFile(MonFile(volume), 0, cs, runs, size)
    pos = rng.choice([0, 0, 1, 4095, rng.randrange(size)])
    f.seek(pos)
    want = rng.choice([-1, size, size - pos, size // 2 + 1])
    got = f.read(want)
    ref = model[pos:] if want < 0 else model[pos:pos + want]
    mon.check(bytes(got) == ref, 'large-read', lambda: 'cs=%d %d clusters, read(%d) at %d: got %d bytes, want %d' % (cs, n, want, pos, len(got), len(ref)))
    mon.equal(f.tell(), pos + len(ref), 'large-position')
    mon.count('large_reads')
    if len(ref) > 16 << 20:
        mon.count('reads_over_16_mib')
    mon.sig('large', cs, n, pos, want)


FAMILIES = [('huge', case_huge, 4000, 60000), ('large', case_large, 60, 600), ('direct', case_direct, 16000, 400000), ('record', case_record, 5000, 100000), ('interleaved', case_interleaved, 3000, 60000)]
