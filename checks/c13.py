"""C13: partition tables against generated disks with faults."""
import struct, uuid, zlib
from lib.harness import MonFile, clip
from lib import ntfs, parts
from dfir_ntfs import PartitionTable

PROPERTY = 'C13'
RULE = ('each case builds an MBR with primary and chained logical partitions (any order on disk, empty links, loops, broken links) or a GPT disk with both copies of its table for 512- or 4096-byte sectors, '
        'damages a chosen region (primary header, primary array, alternate pointer, backup header, backup array) and compares the reported partitions with the stored ones. Distinct = distinct tables and damage.')
REQUIRED = ['gpt_partitions', 'gpt_primary', 'gpt_backup_by_pointer', 'gpt_backup_last_sector', 'gpt_refused', 'gpt_large_entries', 'mbr_partitions', 'ebr_partitions', 'ebr_loops', 'ebr_broken',
            'ebr_empty_link', 'ebr_backwards', 'two_extended', 'sector4096', 'wrong_crc_argument', 'far_gpt', 'far_ebr', 'beyond_32_bits', 'no_entries', 'shared_chain', 'long_ebr_chain']


def read_gpt(disk, sector):
    g = PartitionTable.GPT(MonFile(bytes(disk)), sector)
    h = g.read_gpt_header()
    return g, h


def flip(rng, disk, lo, hi):
    p = rng.randrange(lo, hi)
    disk[p] ^= rng.randint(1, 255)
    return p


def case_gpt(rng, mon):
    sector = rng.choice([512, 512, 4096])
    disk, i = parts.gpt_disk(rng, sector)
    if sector == 4096:
        mon.count('sector4096')
    if i['esize'] > 128:
        mon.count('gpt_large_entries')
    e2 = i['e2']
    if not i['n']:
        mon.count('no_entries')
    h2 = i['alt'] * sector
    kinds = rng.choice([[], ['h1'], ['sig1'], ['h1', 'h2'], ['h2']]) if not i['n'] else rng.choice([[], [], ['h1'], ['a1'], ['sig1'], ['alt1'], ['h1', 'h2'], ['a1', 'a2'], ['h1', 'a2'], ['a1', 'h2'], ['sig1', 'sig2'], ['zero1'], ['h2'], ['a2'], ['a1', 'sig2']])
    ok1 = ok2 = True
    ptr = True          # is the alternate pointer of the primary header readable
    for k in kinds:
        if k == 'h1':
            p = flip(rng, disk, sector + 8, sector + i['hsize'])
            ok1 = False
            if sector + 32 <= p < sector + 40:
                ptr = False
        elif k == 'sig1':
            flip(rng, disk, sector, sector + 8)
            ok1 = ptr = False
        elif k == 'zero1':
            disk[sector:2 * sector] = b'\x00' * sector
            ok1 = ptr = False
        elif k == 'alt1':
            disk[sector + 32:sector + 40] = struct.pack('<Q', rng.choice([0, 1, (1 << 64) - 1, i['alt'] + 1, 5]))
            ok1 = ptr = False
        elif k == 'a1':
            flip(rng, disk, i['e1'] * sector, i['e1'] * sector + len(i['arr']))
            ok1 = False
        elif k == 'h2':
            flip(rng, disk, h2 + 8, h2 + i['hsize'])
            ok2 = False
        elif k == 'sig2':
            flip(rng, disk, h2, h2 + 8)
            ok2 = False
        elif k == 'a2':
            flip(rng, disk, e2 * sector, e2 * sector + len(i['arr']))
            ok2 = False
    if ok1:
        want = (0, i['e1'])
    elif ok2 and ptr:
        want = (2, e2)
    elif ok2 and i['alt'] == i['end']:
        want = (1, e2)
    else:
        want = None
    ctx = 'sector=%d n=%d esize=%d damage=%s alt=%d end=%d' % (sector, i['n'], i['esize'], kinds, i['alt'], i['end'])
    if want is None:
        mon.raises((ValueError,), lambda: read_gpt(disk, sector), 'damaged-gpt', ctx)
        mon.count('gpt_refused')
    else:
        g, h = read_gpt(disk, sector)
        mon.equal(tuple(h), (want[0], i['first'], i['last'], i['guid'], want[1], i['n'], i['esize'], i['crc']), 'gpt-header', ctx)
        got = g.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
        mon.equal([tuple(p) for p in got], i['model'], 'gpt-partitions', ctx)
        mon.equal(tuple(g.read_gpt_header()), tuple(h), 'gpt-header-again', ctx)
        mon.count('gpt_partitions', len(got))
        mon.count(['gpt_primary', 'gpt_backup_last_sector', 'gpt_backup_by_pointer'][want[0]])
        # The array is never decoded when it does not match the checksum.
        if i['n']:
            mon.raises((ValueError,), lambda: g.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32 ^ (1 << rng.randint(0, 31))),
                       'gpt-array-crc', ctx)
        mon.count('wrong_crc_argument')
    mon.sig(ctx, i['model'][:3])
    mon.sample('%s -> %s, %d partitions' % (ctx, want, len(i['model'])))


BAD_HEADER = ['revision', 'small', 'big', 'mylba', 'selfalt', 'zeroalt', 'firstusable', 'entrylba1', 'entrylbaend', 'esize64', 'esize129', 'toomany']


def case_gpt_fields(rng, mon):
    """A header with a right checksum but impossible fields is not used either."""
    sector = rng.choice([512, 4096])
    disk, i = parts.gpt_disk(rng, sector)
    k = rng.choice(BAD_HEADER)
    h = bytearray(disk[sector:sector + i['hsize']])

    def put(fmt, off, v):
        struct.pack_into(fmt, h, off, v)
    if k == 'revision':
        put('<L', 8, 0)
    elif k == 'small':
        put('<L', 12, rng.choice([0, 91]))
    elif k == 'big':
        put('<L', 12, rng.choice([sector + 1, 1 << 31]))
    elif k == 'mylba':
        put('<Q', 24, rng.choice([0, 2, i['alt']]))
    elif k == 'selfalt':
        put('<Q', 32, 1)
    elif k == 'zeroalt':
        put('<Q', 32, 0)
    elif k == 'firstusable':
        put('<Q', 40, rng.choice([0, 1, 16384 // sector + 1]))
    elif k == 'entrylba1':
        put('<Q', 72, rng.choice([0, 1]))
    elif k == 'entrylbaend':
        put('<Q', 72, rng.choice([i['end'], i['end'] + 1]))
    elif k == 'esize64':
        put('<L', 84, rng.choice([0, 64, 127]))
    elif k == 'esize129':
        put('<L', 84, 129)
    else:
        put('<L', 80, 1 << 24)
    h[16:20] = b'\x00' * 4
    put('<L', 16, zlib.crc32(bytes(h)))
    disk[sector:sector + i['hsize']] = h
    if rng.random() < 0.5 and i['alt'] == i['end']:
        __, got = read_gpt(disk, sector)
        mon.check(got.location in (1, 2), 'impossible-header-used', k)
        mon.equal(tuple(got)[1:], (i['first'], i['last'], i['guid'], i['e2'], i['n'], i['esize'], i['crc']), 'gpt-header', k)
        mon.count('gpt_backup_last_sector')
    else:
        flip(rng, disk, i['alt'] * sector, i['alt'] * sector + 92)
        mon.raises((ValueError,), lambda: read_gpt(disk, sector), 'impossible-header', k)
        mon.count('gpt_refused')
    mon.sig(k, sector, bytes(h[:92]))


def case_mbr(rng, mon):
    sector = rng.choice([512, 512, 4096])
    total = 4000 if sector == 512 else 600
    disk = bytearray(total * sector)
    code = rng.random() < 0.5
    if code:
        disk[0:440] = b'\x33\xc0' + ntfs.rnd_bytes(rng, 438)
    sigv = rng.getrandbits(32)
    disk[440:444] = struct.pack('<L', sigv)
    next_lba = 1
    prim, logical = [], []
    ext_slots = [s for s in range(4) if rng.random() < 0.35][:2]
    ebr_used = set()
    again = None
    for slot in range(4):
        if again is not None and slot not in ext_slots:
            entry = (0, ntfs.rnd_bytes(rng, 3), rng.choice([0x5, 0xF, 0x85]), ntfs.rnd_bytes(rng, 3), again, 100)
            again = None
            mon.count('shared_chain')
        elif slot in ext_slots:
            t = rng.choice([0x5, 0xF, 0x85])
            span = 1200 if sector == 512 else 150
            base = next_lba + rng.randint(0, 20)
            n = rng.choice([0, 1, 2, 5, 12, 60, 130])
            pos = rng.sample(range(1, span - 1), max(0, n - 1))
            links = [0] + pos if n else []
            if len(pos) > 1 and pos != sorted(pos):
                mon.count('ebr_backwards')
            if n > 50:
                mon.count('long_ebr_chain')
            loop = rng.random() < 0.2
            broken = rng.randint(0, n - 1) if n and rng.random() < 0.2 else None
            stopped = False
            for j, rel in enumerate(links):
                lba = base + rel
                empty = rng.random() < 0.15
                p = (rng.choice([0, 0x80]), rng.choice([7, 0x83, 0xB, 1, 0xFF, 0x5]) if not empty else 0, rng.randint(1, 63), rng.getrandbits(20))
                last = j + 1 == len(links)
                nxt = links[j + 1] if not last else 0
                if last and loop:
                    nxt = rng.choice(links[1:] or [0])
                    mon.count('ebr_loops')
                sec = bytearray(512)
                sec[0:446] = ntfs.rnd_bytes(rng, 446) if rng.random() < 0.3 else b'\x00' * 446
                sec[446:462] = parts.mbr_part(p[0], ntfs.rnd_bytes(rng, 3), p[1], ntfs.rnd_bytes(rng, 3), p[2], p[3])
                sec[462:478] = parts.mbr_part(0, b'\x00' * 3, 5 if nxt else 0, b'\x00' * 3, nxt, rng.getrandbits(16))
                sec[510:512] = b'\x55\xaa'
                if broken == j:
                    sec[510:512] = rng.choice([b'\x00\x00', b'\xaa\x55', b'\x55\xab'])
                    mon.count('ebr_broken')
                disk[lba * sector:lba * sector + 512] = sec
                if broken == j:
                    stopped = True
                if not stopped:
                    if empty:
                        mon.count('ebr_empty_link')
                    else:
                        logical.append((p[0], p[1], lba + p[2], p[3]))
            entry = (rng.choice([0, 0x80]), ntfs.rnd_bytes(rng, 3), t, ntfs.rnd_bytes(rng, 3), base, span)
            whole = n and not (loop or broken is not None)
            if whole and slot < 3 and rng.random() < 0.3:
                # one more extended entry, leading into the same chain: nothing is reported twice
                again = base + rng.choice([0] + links)
            next_lba = base + span + 1
        elif rng.random() < 0.6:
            entry = (rng.choice([0, 0x80, rng.getrandbits(8)]), ntfs.rnd_bytes(rng, 3), rng.choice([1, 4, 6, 7, 0xB, 0xC, 0xE, 0x83, 0xEE, 0xEF, 0xFF, 0x15]), ntfs.rnd_bytes(rng, 3), rng.choice([0, 1, 0xFFFFFFFF] + [rng.getrandbits(32)] * 3), rng.choice([0, 1, 0xFFFFFFFF] + [rng.getrandbits(32)] * 3))
        else:
            entry = None
            b = b'\x00' * 16 if rng.random() < 0.5 else parts.mbr_part(0x80, b'abc', 0, b'def', rng.getrandbits(32), rng.getrandbits(32))
            disk[446 + 16 * slot:462 + 16 * slot] = b
        if entry is not None:
            disk[446 + 16 * slot:462 + 16 * slot] = parts.mbr_part(*entry)
            prim.append(entry)
    disk[510:512] = b'\x55\xaa'
    m = PartitionTable.MBR(MonFile(bytes(disk)), sector)
    ctx = 'sector=%d primary=%s logical=%s' % (sector, [(p[2], p[4], p[5]) for p in prim], clip(logical, 300))
    mon.equal([tuple(p) for p in m.read_mbr_partitions()], prim, 'mbr-partitions', ctx)
    mon.equal([tuple(p) for p in m.read_ebr_partitions()], logical, 'ebr-partitions', ctx)
    info = m.read_mbr()
    mon.equal(tuple(info), (code, sigv), 'mbr-data', ctx)
    if rng.random() < 0.2:
        disk[rng.choice([510, 511])] ^= 1 << rng.randint(0, 7)
        mon.raises((ValueError,), PartitionTable.MBR(MonFile(bytes(disk)), sector).read_mbr, 'no-boot-signature', ctx)
    mon.count('mbr_partitions', len(prim))
    mon.count('ebr_partitions', len(logical))
    if len(ext_slots) > 1:
        mon.count('two_extended')
    mon.sig(ctx)
    mon.sample(ctx)


def case_far(rng, mon):
    """Big disks: tables, boot records and pointers beyond 2 TiB."""
    sector = rng.choice([512, 512, 4096])
    total = rng.choice([(1 << 23) + 9, (1 << 31) + 100, (1 << 32) + 5000, (1 << 33) + 77, 1 << 36])
    f = parts.Far(total * sector)
    if rng.random() < 0.5:
        n, esize = rng.choice([4, 128]), 128
        ents = [parts.gpt_entry(rng, rng.random() < 0.4, esize) for __ in range(n)]
        arr, model = b''.join(e[0] for e in ents), [e[1] for e in ents if e[1]]
        crc = zlib.crc32(arr) & 0xFFFFFFFF
        asec = 16384 // sector
        e1 = rng.choice([2, 2, total // 2 + 3, total - 3 * asec])
        alt = rng.choice([total - 1, total - 1, total // 2 + 7, total - 10])
        e2 = rng.choice([alt - asec, total // 3, total - asec - 1])
        first, last = max(2, e1 if e1 < 100 else 0) + asec, total - asec - 2
        guid = ntfs.rnd_bytes(rng, 16)
        f.put(sector, parts.gpt_header(1, alt, first, last, guid, e1, n, esize, crc))
        f.put(e1 * sector, arr)
        f.put(alt * sector, parts.gpt_header(alt, 1, first, last, guid, e2, n, esize, crc))
        f.put(e2 * sector, arr)
        hurt = rng.choice([None, 'h1', 'sig1', 'a1'])
        want = (0, e1)
        if hurt == 'h1':
            b = bytearray(f.pieces[sector]); b[rng.choice([10, 20, 50, 60, 90])] ^= 5; f.put(sector, b)
            want = (2, e2)
        elif hurt == 'sig1':
            b = bytearray(f.pieces[sector]); b[3] ^= 5; f.put(sector, b)
            want = (1, e2) if alt == total - 1 else None
        elif hurt == 'a1':
            if abs(e1 - e2) < asec:
                return
            b = bytearray(f.pieces[e1 * sector]); b[rng.randrange(len(b))] ^= 5; f.put(e1 * sector, b)
            want = (2, e2)
        if abs(e1 - e2) < asec and e1 != e2 or abs(alt - e1) < asec or e2 <= alt < e2 + asec:
            return
        ctx = 'far GPT: sector %d, %d sectors, array at %d, alternate at %d with array at %d, damage %s' % (sector, total, e1, alt, e2, hurt)
        g = PartitionTable.GPT(f, sector)
        if want is None:
            mon.raises((ValueError,), g.read_gpt_header, 'damaged-gpt', ctx)
        else:
            h = g.read_gpt_header()
            mon.equal(tuple(h), (want[0], first, last, uuid.UUID(bytes_le=guid), want[1], n, esize, crc), 'gpt-header', ctx)
            mon.equal([tuple(p) for p in g.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)], model, 'gpt-partitions', ctx)
        mon.count('far_gpt')
    else:
        base = rng.choice([63, 2048, (1 << 23) + 1, 1 << 31, (1 << 32) - 100])
        mbr = bytearray(512)
        mbr[510:512] = b'\x55\xaa'
        size = rng.getrandbits(32)
        mbr[446 + 16:462 + 16] = parts.mbr_part(0, bytes(3), rng.choice([5, 0xF, 0x85]), bytes(3), base, size)
        f.put(0, mbr)
        rels = [0]
        for __ in range(rng.choice([0, 1, 3, 8])):
            rels.append(rng.choice([rng.randrange(1, 1 << 20), rng.randrange(1, 1 << 32), (1 << 32) - 1 - rng.randrange(50)]))
        if len(set(rels)) != len(rels):
            return
        want = []
        stop = False
        for k, rel in enumerate(rels):
            lba = base + rel
            ebr = bytearray(512)
            start, cnt, t = rng.choice([1, 63, rng.getrandbits(32)]), rng.getrandbits(32), rng.choice([7, 0x83, 0xB])
            ebr[446:462] = parts.mbr_part(0x80, bytes(3), t, bytes(3), start, cnt)
            if k + 1 < len(rels):
                ebr[462:478] = parts.mbr_part(0, bytes(3), 5, bytes(3), rels[k + 1], 100)
            ebr[510:512] = b'\x55\xaa'
            if lba >= total:
                stop = True
            if not stop:
                f.put(lba * sector, ebr)
                want.append((0x80, t, lba + start, cnt))
        ctx = 'far MBR: sector %d, %d sectors, extended at %d, links %s' % (sector, total, base, rels)
        m = PartitionTable.MBR(f, sector)
        mon.equal([tuple(p) for p in m.read_mbr_partitions()], [(0, bytes(3), mbr[446 + 20], bytes(3), base, size)], 'mbr-partitions', ctx)
        mon.equal([tuple(p) for p in m.read_ebr_partitions()], want, 'ebr-partitions', ctx)
        mon.count('far_ebr')
        if any(base + r > 1 << 32 for r in rels):
            mon.count('beyond_32_bits')
    mon.count('checks', 3)
    mon.sig(ctx)


FAMILIES = [('far', case_far, 4000, 40000), ('gpt', case_gpt, 12000, 150000), ('gpt_fields', case_gpt_fields, 4000, 40000), ('mbr', case_mbr, 12000, 150000)]
