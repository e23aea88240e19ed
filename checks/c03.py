"""C03: torn-write injection on file records, index buffers and log pages."""
import io, struct, binascii
from lib.harness import clip, MonFile
from lib import ntfs
from dfir_ntfs import MFT, Attributes, LogFile

PROPERTY = 'C03'
RULE = ('each case builds a multi-sector structure with random content and stamps, then (a) reads it back intact, (b) tears every single sector '
        'and random subsets of sectors (older content with an older stamp, a foreign stamp, a zeroed sector), (c) damages the update sequence '
        'array geometry. The oracle: intact -> every byte restored; torn in the used area or malformed -> refused. Distinct = distinct (kind, size, tear).')
REQUIRED = ['frs_intact', 'frs_torn_used', 'frs_torn_unused', 'frs_malformed', 'index_intact', 'index_torn', 'index_malformed', 'page_intact', 'page_torn', 'page_malformed', 'restart_intact', 'restart_torn', 'crc_intact', 'crc_damaged']


def rnd_stamp(rng):
    return rng.choice([b'\x00\x00', b'\x01\x00', b'\xff\xff', ntfs.rnd_bytes(rng, 2), ntfs.rnd_bytes(rng, 2)])


def other_stamp(rng, stamp):
    while True:
        v = struct.unpack('<H', stamp)[0]
        s = rng.choice([struct.pack('<H', (v - 1) & 0xFFFF), struct.pack('<H', (v + 1) & 0xFFFF), bytes([stamp[0], stamp[1] ^ (1 << rng.randint(0, 7))]),
                        bytes([stamp[0] ^ (1 << rng.randint(0, 7)), stamp[1]]), stamp[::-1], b'\x00\x00', ntfs.rnd_bytes(rng, 2)])
        if s != stamp:
            return s


def tear(rng, buf, stamp, sectors):
    """Replace the given sectors (0-based) by ones a partial write may leave there."""
    b = bytearray(buf)
    for k in sectors:
        how = rng.random()
        lo, hi = k * 512, (k + 1) * 512
        if k != 0 and how < 0.4:
            b[lo:hi - 2] = ntfs.rnd_bytes(rng, 510)
        elif k != 0 and how < 0.5 and stamp != b'\x00\x00':
            b[lo:hi] = b'\x00' * 512
            continue
        b[hi - 2:hi] = other_stamp(rng, stamp)
    return bytes(b)


def subsets(rng, n, limit=12):
    out = [{k} for k in range(n)] + [set(range(1, n)), set(range(n))]
    for __ in range(limit - len(out) if limit > len(out) else 2):
        s = set(k for k in range(n) if rng.random() < 0.4)
        if s:
            out.append(s)
    return out


def rnd_attrs(rng, room):
    """Attribute records filling up to `room` bytes, with (type, name, value or runs) expectations."""
    attrs, model = [], []
    used = 0
    while True:
        t = rng.choice([ntfs.SI, ntfs.DATA, ntfs.SECDESC, ntfs.OBJID, ntfs.REPARSE, ntfs.BITMAP])
        name = rng.choice([None, None, 'x', 'name of stream'])
        v = ntfs.rnd_bytes(rng, rng.choice([0, 1, 8, 30, 100, 400, 700]))
        a = ntfs.attr_resident(t, v, name=name)
        if used + len(a) > room:
            break
        attrs.append(a)
        model.append((t, name, v))
        used += len(a)
        if rng.random() < 0.25:
            break
    return attrs, model


def attr_log(frs):
    return [(a.type_code, a.name, bytes(a.value)) for a in frs.attributes()]


def case_frs(rng, mon):
    size = rng.choice([1024, 1024, 4096])
    short = rng.random() < 0.2
    usa_off = None if rng.random() < 0.7 else rng.choice([48, 50, 56, 60, 100])
    room = size - ntfs.align8((usa_off or 48) + 2 * (size // 512 + 1)) - 8
    attrs, model = rnd_attrs(rng, room if rng.random() < 0.6 else room // 3)
    slack = ntfs.rnd_bytes(rng, size)
    stamp = rnd_stamp(rng)
    plain, uo = ntfs.frs_plain(attrs, number=rng.randint(0, 1 << 20), seq=rng.randint(1, 65535), size=size, short=short and usa_off is None, slack=slack, usa_off=usa_off,
                               signature=rng.choice([b'FILE', b'FILE', b'BAAD', b'CHKD']))
    first_free = struct.unpack('<L', plain[24:28])[0]
    prot = bytes(ntfs.usa_protect(plain, uo, stamp))
    ctx = 'size=%d usa_off=%d stamp=%s first_free=%d' % (size, uo, stamp.hex(), first_free)
    arg = prot if rng.random() < 0.5 else bytearray(prot)
    f = MFT.FileRecordSegment(arg)
    mon.equal(bytes(arg), prot, 'input-changed', ctx)
    mon.equal(attr_log(f), model, 'frs-content', ctx)
    end = first_free - 8 + 4
    mon.equal(bytes(f.get_slack().value), bytes(plain[end:]), 'frs-slack-bytes', ctx)
    mon.count('frs_intact')
    mon.sig('frs', size, uo, first_free, stamp)
    n = size // 512
    for s in subsets(rng, n):
        t = tear(rng, prot, stamp, s)
        if any(k * 512 < first_free for k in s):
            mon.raises(MFT.FileRecordSegmentException, lambda: MFT.FileRecordSegment(t), 'torn-record', '%s torn sectors=%r' % (ctx, sorted(s)))
            mon.count('frs_torn_used')
        else:
            g = MFT.FileRecordSegment(t)
            mon.equal(attr_log(g), model, 'frs-content-torn-unused', '%s torn sectors=%r' % (ctx, sorted(s)))
            # The intact, used bytes after the end marker must be restored too.
            want = bytes(plain[end:min(s) * 512])
            mon.equal(bytes(g.get_slack().value)[:len(want)], want, 'frs-slack-torn-unused', ctx)
            mon.count('frs_torn_unused')
        mon.sig('frs', size, n, tuple(sorted(s)), first_free)
    # A stamp in the array itself that differs from all sectors.
    b = bytearray(prot)
    b[uo:uo + 2] = other_stamp(rng, stamp)
    mon.raises(MFT.FileRecordSegmentException, lambda: MFT.FileRecordSegment(bytes(b)), 'wrong-array-stamp', ctx)
    # Malformed geometry.
    b = bytearray(prot)
    r = rng.random()
    if r < 0.5:
        v = rng.choice([0, 1, 2, n, n + 2, n + 3, 0xFFFF, 2 * (n + 1)])
        if v != n + 1:
            b[6:8] = struct.pack('<H', v)
    else:
        b[4:6] = struct.pack('<H', rng.choice([0, 2, 8, 40, 41, 508, 510, 512, 600, size - 2, size, 0xFFFF]))
    if bytes(b) != prot:
        mon.raises(MFT.FileRecordSegmentException, lambda: MFT.FileRecordSegment(bytes(b)), 'malformed-array-record', '%s usa=%r' % (ctx, struct.unpack('<HH', b[4:8])))
        mon.count('frs_malformed')
    b = bytearray(prot)
    b[0:4] = rng.choice([b'\x00' * 4, b'INDX', b'RCRD', b'file', b'FIL0', ntfs.rnd_bytes(rng, 4)])
    mon.raises(MFT.FileRecordSegmentException, lambda: MFT.FileRecordSegment(bytes(b)), 'foreign-signature', ctx)
    mon.raises(MFT.FileRecordSegmentException, lambda: MFT.FileRecordSegment(prot[:rng.randrange(size)]), 'truncated-record', ctx)
    mon.sample('%s: %d attributes restored; all single-sector and %d subset tears judged' % (ctx, len(model), len(subsets(rng, n))))


def case_index(rng, mon):
    size = rng.choice([1024, 2048, 4096, 4096, 8192, 65536])
    stamp = rnd_stamp(rng)
    nbuf = rng.randint(2, 5)
    usa_off = 40 if rng.random() < 0.8 else rng.choice([42, 44, 48])
    bufs, plains, logs = [], [], []
    for v in range(nbuf):
        entries, log = [], []
        used = 0
        room = size - ntfs.align8(usa_off + 2 * (size // 512 + 1)) - 24
        while True:
            key = ntfs.fn_value(ntfs.ref(rng.randint(5, 99), 1), ntfs.rnd_name(rng, 1, 60))
            r = rng.getrandbits(64)
            e = ntfs.index_entry(r, key)
            if used + len(e) > room or (used > 3000 and rng.random() < 0.5):
                break
            used += len(e)
            entries.append(e)
            log.append((r, key))
        plain = ntfs.index_buffer_plain(entries, size=size, vcn=v, lsn=rng.getrandbits(63), slack=ntfs.rnd_bytes(rng, size), usa_off=usa_off)
        plains.append(bytes(plain))
        logs.append(log)
        bufs.append(bytes(ntfs.usa_protect(plain, usa_off, stamp)))
    ctx = 'index buffers: %d x %d, stamp=%s' % (nbuf, size, stamp.hex())

    def observed(stream):
        f = MFT.FragmentedFile(MonFile(stream), 0, 512, [(0, len(stream) // 512)], len(stream))
        return [(b.get_this_block(), [(e.get_file_reference(), bytes(e.get_attribute())) for e in b.index_entries()], bytes(b.get_slack())) for b in Attributes.IndexAllocation(f).index_buffers()]

    def model(keep):
        out = []
        for v in keep:
            ff = struct.unpack('<L', plains[v][28:32])[0]
            out.append((v, logs[v], plains[v][24 + ff:]))
        return out

    mon.equal(observed(b''.join(bufs)), model(range(nbuf)), 'index-content', ctx)
    mon.count('index_intact')
    n = size // 512
    for s in subsets(rng, n, 10)[:20]:
        v = rng.randrange(nbuf)
        t = tear(rng, bufs[v], stamp, s)
        st = b''.join(bufs[:v] + [t] + bufs[v + 1:])
        if v == 0:
            mon.equal(observed(st), [], 'torn-first-index-buffer', '%s torn=%r' % (ctx, sorted(s)))
        else:
            mon.equal(observed(st), model([x for x in range(nbuf) if x != v]), 'torn-index-buffer', '%s buffer=%d torn=%r' % (ctx, v, sorted(s)))
        mon.count('index_torn')
        mon.sig('index', size, tuple(sorted(s)), v)
    v = rng.randrange(1, nbuf)
    b = bytearray(bufs[v])
    k = rng.random()
    if k < 0.4:
        x = rng.choice([0, 1, 2, n, n + 2, 0xFFFF])
        b[6:8] = struct.pack('<H', x)
    elif k < 0.8:
        b[4:6] = struct.pack('<H', rng.choice([0, 8, 38, 39, 508, 510, 512, size & 0xFFFF, 0xFFFF]))
    else:
        b[0:4] = rng.choice([b'\x00' * 4, b'FILE', b'INDx', ntfs.rnd_bytes(rng, 4)])
    if bytes(b) != bufs[v]:
        mon.equal(observed(b''.join(bufs[:v] + [bytes(b)] + bufs[v + 1:])), model([x for x in range(nbuf) if x != v]), 'malformed-index-buffer', '%s buffer=%d header=%s' % (ctx, v, bytes(b[:8]).hex()))
        mon.count('index_malformed')


def page(rng, sig, usa_off=40, size=4096):
    b = bytearray(sig) + struct.pack('<HH', usa_off, size // 512 + 1) + ntfs.rnd_bytes(rng, size - 8)
    return b


LOGERR = (LogFile.LogFileException,)


def case_page(rng, mon):
    stamp = rnd_stamp(rng)
    usa_off = rng.choice([40, 40, 42, 48])
    plain = page(rng, rng.choice([b'RCRD', b'RCRD', b'CHKD', b'BAAD']), usa_off)
    usa_end = usa_off + 18
    data_off = ntfs.align8(usa_end)
    prot = bytes(ntfs.usa_protect(plain, usa_off, stamp))
    ctx = 'log page usa_off=%d stamp=%s' % (usa_off, stamp.hex())

    def restored(buf):
        g = bytearray(LogFile.LogRecordPage(buf, 7, data_off).buf)
        g[usa_off:usa_end] = plain[usa_off:usa_end]
        return bytes(g)
    mon.equal(restored(prot), bytes(plain), 'page-content', ctx)
    mon.count('page_intact')
    for s in subsets(rng, 8):
        t = tear(rng, prot, stamp, s)
        mon.raises(LOGERR, lambda: LogFile.LogRecordPage(t, 7, data_off), 'torn-page', '%s torn=%r' % (ctx, sorted(s)))
        mon.count('page_torn')
        mon.sig('page', tuple(sorted(s)), stamp)
    b = bytearray(prot)
    if rng.random() < 0.5:
        b[6:8] = struct.pack('<H', rng.choice([0, 1, 2, 8, 10, 17, 0xFFFF]))
    else:
        b[4:6] = struct.pack('<H', rng.choice([0, 2, 6, 7, 508, 512, 4096, 0xFFFF]))
    mon.raises(LOGERR, lambda: LogFile.LogRecordPage(bytes(b), 7, data_off), 'malformed-page', '%s usa=%r' % (ctx, struct.unpack('<HH', b[4:8])))
    mon.count('page_malformed')
    # Pages protected by a checksum (persistent-memory volumes) carry no stamps.
    c = bytearray(page(rng, b'RCRD', usa_off))
    c[usa_off:usa_end] = b'\x00' * 18
    crc = binascii.crc32(bytes(c))
    c[usa_off:usa_off + 8] = struct.pack('<L4s', crc, b'CRC4')
    g = LogFile.LogRecordPage(bytes(c), 7, data_off)
    mon.equal(bytes(g.buf)[usa_end:], bytes(c)[usa_end:], 'crc-page-content', ctx)
    mon.equal(bytes(g.buf)[:usa_off], bytes(c)[:usa_off], 'crc-page-content', ctx)
    mon.count('crc_intact')
    d = bytearray(c)
    i = rng.choice([x for x in range(4096) if not (usa_off <= x < usa_end) and not 4 <= x < 8])
    d[i] ^= 1 << rng.randint(0, 7)
    # Without its checksum this is an ordinary page, whose stamps cannot all agree (except by chance).
    st = bytes(d[usa_off:usa_off + 2])
    if not all(bytes(d[k * 512 - 2:k * 512]) == st for k in range(1, 9)):
        mon.raises(LOGERR, lambda: LogFile.LogRecordPage(bytes(d), 7, data_off), 'damaged-crc-page', '%s byte=%d' % (ctx, i))
        mon.count('crc_damaged')
    d = bytearray(c)
    d[usa_off + rng.randrange(4)] ^= 1 << rng.randint(0, 7)
    st = bytes(d[usa_off:usa_off + 2])
    if not all(bytes(d[k * 512 - 2:k * 512]) == st for k in range(1, 9)):
        mon.raises(LOGERR, lambda: LogFile.LogRecordPage(bytes(d), 7, data_off), 'wrong-crc-page', ctx)
    # A page with the checksum mark, a wrong checksum, but valid stamps is an ordinary intact page.
    e = page(rng, b'RCRD', usa_off)
    tail1, tail2 = b'CR', b'C4'
    e[2 * 512 - 2:2 * 512] = tail1
    e[3 * 512 - 2:3 * 512] = tail2
    pe = bytes(ntfs.usa_protect(e, usa_off, stamp))
    g = bytearray(LogFile.LogRecordPage(pe, 7, data_off).buf)
    g[usa_off:usa_end] = e[usa_off:usa_end]
    mon.equal(bytes(g), bytes(e), 'crc-mark-by-chance', ctx)


def case_restart(rng, mon):
    stamp = rnd_stamp(rng)
    usa_off = 30
    b = page(rng, rng.choice([b'RSTR', b'CHKD']), usa_off)
    ver = rng.choice([(1, 1), (2, 0)])
    b[16:24] = struct.pack('<LL', 4096, 4096)
    b[24:30] = struct.pack('<HHH', 48, ver[1], ver[0])
    prot = bytes(ntfs.usa_protect(b, usa_off, stamp))
    g = LogFile.RestartPage(prot)
    got = bytearray(g.buf)
    got[30:48] = b[30:48]
    mon.equal(bytes(got), bytes(b), 'restart-content')
    mon.equal((g.get_major_version(), g.get_minor_version(), g.get_chkdsk_lsn(), g.get_restart_offset()), (ver[0], ver[1], struct.unpack('<Q', b[8:16])[0], 48), 'restart-fields')
    mon.count('restart_intact')
    for s in subsets(rng, 8):
        t = tear(rng, prot, stamp, s)
        mon.raises(LOGERR, lambda: LogFile.RestartPage(t), 'torn-restart', 'torn=%r' % sorted(s))
        mon.count('restart_torn')
        mon.sig('restart', tuple(sorted(s)), stamp)
    c = bytearray(prot)
    c[0:4] = rng.choice([b'RCRD', b'\x00' * 4, b'FILE'])
    mon.raises(LOGERR, lambda: LogFile.RestartPage(bytes(c)), 'foreign-restart')


FAMILIES = [('frs', case_frs, 9000, 200000), ('index', case_index, 3000, 60000), ('page', case_page, 4000, 80000), ('restart', case_restart, 2000, 40000)]
