"""C20: timestamps denote the right instant."""
import struct, datetime, uuid
from lib.harness import MonFile, clip
from lib import ntfs, fatgen, exfatgen, usngen, parts
from dfir_ntfs import Attributes, WSL, USN, MoveTable, MFT, ShadowCopy
from dfir_ntfs.addons import FAT, exFAT

PROPERTY = 'C20'
RULE = ('boundary, random and sorted sequences of stored time values are decoded by every decoder and through every structure that stores times, and compared with exact integer arithmetic; all 65,536 FAT dates, FAT times and (by 10-ms value and time zone) '
        'exFAT parts are enumerated. Sorted sequences must decode to sorted instants. Distinct = distinct value sets.')
REQUIRED = ['filetimes', 'filetimes_absent', 'guid_times', 'guid_not_v1', 'unix_times', 'unix_absent', 'fat_dates', 'fat_times', 'exfat_values', 'exfat_zones', 'ordered_pairs', 'through_si', 'through_fn', 'through_usn', 'through_objid',
            'through_vss', 'through_tracking', 'through_fat_dir', 'through_exfat_dir', 'through_index', 'raising_decoder']

MAXT = 2650467744000000000      # 10000-01-01 in FILETIME units
E70 = datetime.datetime(1970, 1, 1)


def rnd_ticks(rng):
    return rng.choice([0, 1, 9, 10, 11, rng.getrandbits(64), MAXT - 1, MAXT, MAXT + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, rng.randrange(MAXT), rng.randrange(MAXT), rng.randrange(125911584000000000, 140000000000000000),
                       rng.randrange(116444736000000000, 116444736000000000 + 10 ** 9), 10 * rng.randrange(13 * 10 ** 15), 10000000 * rng.randrange(15 * 10 ** 9)])


def inst(mon, got, t, what, epoch=ntfs.EPOCH_1601):
    mon.check(ntfs.instant_ok(got, t, epoch), what, lambda: 'stored %d (%#x), got %r' % (t, t, got))
    mon.check(got is None or got.tzinfo is None, what + '-zone')
    if got is None:
        mon.count('filetimes_absent')


def case_filetime(rng, mon):
    vals = sorted(rnd_ticks(rng) for __ in range(40))
    base = rng.randrange(1, MAXT - 10 ** 6)
    vals += list(range(base, base + 40))                    # neighbouring values
    for dec, epoch, name in ((Attributes.DecodeFiletime, ntfs.EPOCH_1601, 'filetime'), (Attributes.DecodeGUIDTime, ntfs.EPOCH_1582, 'guid-time')):
        prev = None
        out = []
        for t in vals:
            got = dec(t)
            inst(mon, got, t, name, epoch)
            out.append((t, got))
            mon.count('filetimes' if name == 'filetime' else 'guid_times')
        out.sort(key=lambda x: x[0])
        for (a, x), (b, y) in zip(out, out[1:]):
            if x is None:
                mon.check(y is None, name + '-order', lambda: '%d absent but %d -> %r' % (a, b, y))
            elif y is not None:
                mon.check(x <= y, name + '-order', lambda: '%d -> %r, %d -> %r' % (a, x, b, y))
            mon.count('ordered_pairs')
        big = rng.choice([MAXT + 10 ** 16, (1 << 64) - 1])
        mon.raises((Exception,), lambda: dec(big, False), name + '-raising')
        mon.count('raising_decoder')
    # Whole seconds are exact.
    for __ in range(10):
        s = rng.randrange(0, 265046774399)
        mon.equal(Attributes.DecodeFiletime(s * 10000000), ntfs.EPOCH_1601 + datetime.timedelta(seconds=s), 'filetime-second', s)
    mon.sig(vals)
    mon.sample('values %s' % vals[:6])


def case_structs(rng, mon):
    t = [rnd_ticks(rng) for __ in range(4)]
    names = ['get_ctime', 'get_mtime', 'get_etime', 'get_atime']
    o = Attributes.StandardInformation(ntfs.si_value(*t))
    for n, v in zip(names, t):
        inst(mon, getattr(o, n)(), v, 'si-' + n)
        mon.count('through_si')
    fnv = ntfs.fn_value(ntfs.ref(5, 5), ntfs.rnd_name(rng), c=t[0], m=t[1], e=t[2], a=t[3])
    o = Attributes.FileName(fnv)
    for n, v in zip(names, t):
        inst(mon, getattr(o, n)(), v, 'fn-' + n)
        mon.count('through_fn')
    rec = MFT.FileRecordSegment(ntfs.frs([ntfs.attr_resident(0x10, ntfs.si_value(*t)), ntfs.attr_resident(0x30, fnv)], number=9))
    for a in rec.attributes():
        for n, v in zip(names, t):
            inst(mon, getattr(a.value_decoded(), n)(), v, 'record-' + n)
    e = ntfs.index_entry(ntfs.ref(40, 1), fnv)
    root = Attributes.IndexRoot(ntfs.index_root_value([e]))
    for ent in root.index_entries():
        key = Attributes.FileName(ent.get_attribute())
        for n, v in zip(names, t):
            inst(mon, getattr(key, n)(), v, 'index-' + n)
            mon.count('through_index')
    # Change journal.
    nm = 'a.txt'.encode('utf-16le')
    x = rnd_ticks(rng)
    raw = struct.pack('<LHHQQQQLLLLHH', 72, 2, 0, ntfs.ref(7, 1), ntfs.ref(5, 5), 0, x, 1, 0, 0, 0, len(nm), 60) + nm
    raw += b'\x00' * (72 - len(raw))
    inst(mon, USN.GetUsnRecord(raw).get_timestamp(), x, 'usn')
    raw3 = struct.pack('<LHH16s16sQQLLLLHH', 88, 3, 0, b'\x01' * 16, b'\x02' * 16, 0, x, 1, 0, 0, 0, len(nm), 76) + nm
    raw3 += b'\x00' * (88 - len(raw3))
    inst(mon, USN.GetUsnRecord(raw3).get_timestamp(), x, 'usn-v3')
    mon.count('through_usn', 2)
    # Shadow copies.
    item = bytearray(0x80)
    struct.pack_into('<LLQ', item, 0, 2, 0, 1 << 30)
    struct.pack_into('<Q', item, 48, x)
    inst(mon, ShadowCopy.ControlBlockItem2(bytes(item)).get_timestamp(), x, 'vss')
    mon.count('through_vss')
    # Object identifiers.
    for ver in (1, 1, 2, 3, 4, 5, 8, 0, 15):
        g = rng.getrandbits(60)
        clock = rng.getrandbits(14) | 0x8000
        u = uuid.UUID(int=((g & 0xFFFFFFFF) << 96) | ((g >> 32 & 0xFFFF) << 80) | (((g >> 48) & 0xFFF) << 64) | (ver << 76) | (clock << 48) | rng.getrandbits(48))
        got = Attributes.ObjectID(u.bytes_le + b'\x00' * rng.choice([0, 48])).get_timestamp()
        if ver == 1:
            inst(mon, got, g, 'object-id', ntfs.EPOCH_1582)
            mon.count('through_objid')
        else:
            mon.equal(got, None, 'object-id-not-v1', str(u))
            mon.count('guid_not_v1')
    mon.sig(t, x)


def case_tracking(rng, mon):
    data, model = parts.move_table(rng, 512, nsec=3, dens=0.8)
    used = [m for __, m in model['entries'] if m['type'] == 2]
    got = list(MoveTable.MoveTableParser(MonFile(data), 512).log_entries())
    mon.equal(len(got), len(used), 'tracking-count')
    for e, m in zip(got, used):
        lo, hi = e.get_timestamp()
        inst(mon, lo, m['ts'] << 32, 'tracking-low')
        inst(mon, hi, (m['ts'] << 32) | 0xFFFFFFFF, 'tracking-high')
        for got, raw in zip(e.get_guid_timestamps(), (m['oid'], m['do'], m['bo'])):
            u = uuid.UUID(bytes_le=raw)
            if u.version == 1:
                inst(mon, got, u.time, 'tracking-guid', ntfs.EPOCH_1582)
            else:
                mon.equal(got, None, 'tracking-guid-absent')
        mon.count('through_tracking')
    mon.sig(data[:600])


def case_unix(rng, mon):
    vals = []
    for __ in range(20):
        s = rng.choice([0, 1, rng.getrandbits(31), rng.getrandbits(32), 253402300799, 253402300800, rng.getrandbits(64), (1 << 63), rng.randrange(253402300799)])
        ns = rng.choice([0, 999, 1000, 999999999, 500, 499, rng.randrange(10 ** 9)])
        b = struct.pack('<HHLLLL', 0, 1, 0o100644, 0, 0, 0) + struct.pack('<LLLQQQ', ns, ns, ns, s, s, s)
        o = WSL.LXATTRB(b)
        for f in (o.get_atime, o.get_mtime, o.get_chtime):
            got = f()
            if s > 253402300799:
                mon.equal(got, None, 'unix-unrepresentable', '%d.%09d' % (s, ns))
                mon.count('unix_absent')
            elif got is None:
                mon.check(s == 253402300799 and ns >= 999999500, 'unix-absent', '%d.%09d' % (s, ns))
            else:
                d = got - E70
                us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
                mon.check(abs(us * 1000 - (s * 10 ** 9 + ns)) <= 1000, 'unix-time', lambda: '%d.%09d -> %r' % (s, ns, got))
                mon.count('unix_times')
                vals.append((s, ns, got))
    vals.sort(key=lambda x: x[:2])
    for a, b in zip(vals, vals[1:]):
        mon.check(a[2] <= b[2], 'unix-order', lambda: '%r %r' % (a, b))
        mon.count('ordered_pairs')
    # The three times are stored apart.
    n3 = [rng.randrange(10 ** 9) // 1000 * 1000 for __ in 'abc']
    s3 = [rng.getrandbits(31) for __ in 'abc']
    o = WSL.LXATTRB(struct.pack('<HHLLLL', 0, 1, 1, 2, 3, 4) + struct.pack('<LLLQQQ', *(n3 + s3)))
    mon.equal((o.get_atime(), o.get_mtime(), o.get_chtime()), tuple(E70 + datetime.timedelta(seconds=s, microseconds=n // 1000) for s, n in zip(s3, n3)), 'unix-fields')
    mon.sig(vals, s3)


def case_fat(rng, mon):
    """1/64 of all dates and times (the enumeration is complete over 64 cases), then the two decoders through directories."""
    # case_rng gives no index: pick a random block and, over the run, REQUIRED counts show the coverage.
    blk = rng.randrange(64)
    prev = None
    for v in range(blk * 1024, blk * 1024 + 1024):
        mon.equal(FAT.DecodeFATDate(v), fatgen.fat_date(v), 'fat-date', v)
        mon.equal(FAT.DecodeFATTime(v), fatgen.fat_time(v), 'fat-time', v)
    mon.count('fat_dates', 1024)
    mon.count('fat_times', 1024)
    for __ in range(300):
        v = rng.choice([exfatgen.rnd_ts(rng), rng.getrandbits(32)])
        ten = rng.choice([0, 1, 99, 100, 101, 199, 200, 201, 255, rng.randrange(256)])
        mon.equal(exFAT.DecodeFATTimestamp(v, ten), exfatgen.decode_ts(v, ten), 'exfat-timestamp', '%#x %d' % (v, ten))
        mon.count('exfat_values')
    for b in range(256):
        want = None if b < 128 else (b & 0x7F) - (128 if b & 0x40 else 0)
        mon.equal(exFAT.DecodeFATTimezone(b), want, 'exfat-zone', b)
        mon.count('exfat_zones')
    # Order: later stored values decode to later instants.
    for __ in range(60):
        a, b = sorted((exfatgen.rnd_ts(rng), exfatgen.rnd_ts(rng)))
        x, y = exFAT.DecodeFATTimestamp(a), exFAT.DecodeFATTimestamp(b)
        if x is not None and y is not None:
            mon.check(x <= y, 'exfat-order', '%#x %#x' % (a, b))
            mon.count('ordered_pairs')
    # Through directories.
    m = fatgen.Meta(rng, attrs=0x20, size=1, cluster=5, plain=True)
    raw = fatgen.rnd_short(rng, False)
    buf = m.pack(raw)
    got = [e for e in FAT.DirectoryEntries(buf + b'\x00' * (512 - len(buf)), True).entries()]
    want = fatgen.expect(m, raw, None, False, True)
    mon.equal([(e.atime if hasattr(e, 'atime') else e[5], e[6], e[7]) for e in got], [want[5:8]], 'fat-directory-times', '%#x %#x %d' % (m.ct, m.cd, m.tenth))
    mon.count('through_fat_dir')
    x = exfatgen.Meta(rng)
    s = exfatgen.entry_set(rng, x, 'n')
    got = list(exFAT.DirectoryEntries(s + b'\x00' * (512 - len(s))).entries())
    w = x.expect('n', False)
    mon.equal([tuple(e)[3:9] for e in got], [w[3:9]], 'exfat-directory-times')
    mon.count('through_exfat_dir')
    mon.sig(blk, v, ten)


FAMILIES = [('filetime', case_filetime, 1500, 30000), ('structs', case_structs, 1500, 30000), ('tracking', case_tracking, 200, 4000), ('unix', case_unix, 800, 15000), ('fat', case_fat, 600, 3000)]
