"""C17: exFAT entry sets and boot regions that fail their checksum or structure are not trusted."""
import struct
from lib.harness import MonFile, clip
from lib import ntfs, exfatgen as X
from dfir_ntfs.addons import exFAT

PROPERTY = 'C17'
RULE = ('directories: sequences of valid, deleted, corrupted, truncated and foreign entry sets, orphan names, labels, bitmaps and unknown entries are decoded and compared with an independent reader of the format; every single byte of a set is corrupted in turn. '
        'Boot regions: every byte of the checksummed sectors (thorough) or a random selection is corrupted, fields are set out of bounds under a correct checksum, and the region used (main, backup, none) is compared. Distinct = distinct directories and corruptions.')
REQUIRED = ['sets_valid', 'sets_rejected', 'orphan_names', 'byte_flips', 'following_sets_seen', 'boot_flips', 'boot_backup_used', 'boot_refused', 'bounds_refused', 'bounds_accepted', 'root_refused', 'wrong_sector_backup', 'big_sets', 'checksum_functions', 'attribute_text']
ASSUMPTIONS = ['The boot checksum sector is judged by its first three copies, as the library documents; sector sizes other than 512 and 4096 have no backup region the library looks for.']


def observe(buf, root):
    out = []
    stop = None
    try:
        for e in exFAT.DirectoryEntries(buf, root).entries():
            if type(e) is exFAT.FileEntry:
                out.append(('file',) + tuple(e))
            elif type(e) is exFAT.OrphanEntry:
                out.append(('orphan', e.name_partial))
            elif type(e) is exFAT.VolumeLabelEntry:
                out.append(('label', e.volume_label))
            elif type(e) is exFAT.AllocationBitmapEntry:
                out.append(('bitmap',) + tuple(e))
            else:
                out.append(('?', e))
    except exFAT.DirectoryEntriesException:
        stop = 'raise'
    return out, stop


def compare(mon, buf, root, ctx):
    buf = bytes(buf) + b'\x00' * (-len(buf) % 512 or (0 if buf else 512))
    got, want = observe(buf, root), X.ref_entries(buf, root)
    if got != want:
        for i, (a, b) in enumerate(zip(got[0] + [None], want[0] + [None])):
            if a != b:
                break
        mon.fail('directory-entries', 'item %d: got %s, expected %s; stop: got %s, expected %s; %s' % (i, clip(a, 500), clip(b, 500), got[1], want[1], ctx))
    mon.count('checks')
    mon.count('orphan_names', sum(1 for e in want[0] if e[0] == 'orphan'))
    if want[1]:
        mon.count('root_refused')
    return got[0]


def rnd_meta(rng):
    m = X.Meta(rng, rng.random() < 0.3, cluster=rng.choice([0, 2, 77, rng.getrandbits(32)]), size=rng.choice([0, 1, 4096, rng.getrandbits(40), rng.getrandbits(64)]))
    m.vdl = rng.choice([m.size, 0, rng.randint(0, m.size)])
    m.nofat = rng.random() < 0.5
    return m


def rnd_set(rng, mon, maxlen=40):
    """A set that is valid: (raw, what must be reported)."""
    m = rnd_meta(rng)
    name = X.rnd_name(rng, maxlen)
    raw = X.entry_set(rng, m, name, rng.choice([0, 0, 0, 1, 2, 5]) if rng.random() < 0.95 else rng.choice([17, 30, 45, 61]) if len(name) < 16 else 12)
    if rng.random() < 0.2:
        raw = X.delete(raw)
    mon.count('sets_valid')
    return raw, m.expect(name, not raw[0] & 0x80)


def break_set(rng, raw):
    """Damage a set in a way that makes (or may make) it invalid; half of the time the checksum is recomputed."""
    b = bytearray(raw)
    n = len(b) // 32
    k = rng.choice(['byte', 'bytes', 'count', 'checksum', 'types', 'flags', 'namelen', 'swap', 'cut', 'name', 'drop', 'stream2', 'inuse'])
    if k == 'byte':
        i = rng.randrange(len(b))
        b[i] ^= 1 << rng.randrange(8)
    elif k == 'bytes':
        for __ in range(rng.randint(2, 9)):
            b[rng.randrange(len(b))] = rng.randrange(256)
    elif k == 'count':
        b[1] = rng.choice([0, 1, 2, n - 2, n, n + 1, 18, 19, 64, 65, 255])
    elif k == 'checksum':
        b[rng.choice([2, 3])] ^= rng.randint(1, 255)
    elif k == 'types':
        b[32 * rng.randrange(n)] = rng.choice([0x00, 0x80, 0x85, 0x05, 0xC0, 0x40, 0xC1, 0x41, 0xE0, 0x60, 0x61, 0xE1, 0xC2, 0x81, 0x82, 0x83, 0x20, 0xA0, 0xA1, 0xA2, rng.randrange(256)])
    elif k == 'flags':
        b[33] = rng.choice([0, 2, 1, 3, 0xFE, 0xFF])
    elif k == 'namelen':
        b[35] = rng.choice([0, 1, b[35] - 1 & 255, b[35] + 1 & 255, 15, 16, 255])
    elif k == 'swap':
        i, j = rng.randrange(1, n), rng.randrange(1, n)
        b[32 * i:32 * i + 32], b[32 * j:32 * j + 32] = b[32 * j:32 * j + 32], b[32 * i:32 * i + 32]
    elif k == 'cut':
        del b[32 * rng.randint(1, n - 1):]
    elif k == 'name':
        i = 64 + 2 + 2 * rng.randrange(15)
        b[i:i + 2] = struct.pack('<H', rng.choice([0x2F, 0x5C, 0x3A, 0, 1, 0xD800, 0xDC00, 0x2A, 0x7C, 0x41]))
    elif k == 'drop':
        i = rng.randrange(n)
        del b[32 * i:32 * i + 32]
    elif k == 'stream2':
        i = 32 * rng.randrange(2, n) if n > 2 else 64
        b[i:i] = b[32:64]
        b[1] = (b[1] + 1) & 255
    elif k == 'inuse':
        i = 32 * rng.randrange(n)
        b[i] ^= 0x80
    if rng.random() < 0.5 and len(b) >= 32 and b[0] in (0x85, 0x05):
        want = 32 * (1 + b[1])
        if len(b) >= want >= 32:
            b[2:4] = struct.pack('<H', X.set_checksum(b[:want]))
    return bytes(b), k


def case_directory(rng, mon):
    root = rng.random() < 0.4
    buf = b''
    kinds = []
    for __ in range(rng.choice([1, 3, 8, 20])):
        r = rng.random()
        if r < 0.45:
            raw, __e = rnd_set(rng, mon, None if rng.random() < 0.1 else 40)
        elif r < 0.8:
            raw, k = break_set(rng, rnd_set(rng, mon, None if rng.random() < 0.1 else 40)[0])
            mon.count('sets_rejected')
            kinds.append(k)
        elif r < 0.9:
            name = X.rnd_name(rng)
            ents = X.name_entries(name, rng.choice([0x41, 0xC1]), rng.choice([0, 0, 0, 1, 3]))
            raw = b''.join(ents[:rng.randint(1, len(ents))])
            if rng.random() < 0.2:
                raw *= 2
            kinds.append('orphan')
        elif r < 0.97:
            t = rng.choice([0xA0, 0xA1, 0xA2, 0x21, 0x20, 0x01, 0x02, 0x03, 0x86, 0xC5, 0x45, 0xE0, 0x61, 0xFF, 0x7F, 0xC0, 0x40])
            raw = bytes([t]) + ntfs.rnd_bytes(rng, 31)
        else:
            lab = X.utf16(rng.choice(['', 'LABEL', 'ABCDEFGHIJK', 'ABCDEFGHIJKLMNO', 'a/b', 'x' * 15]))
            raw = rng.choice([bytes([0x83, rng.choice([len(lab) // 2, len(lab) // 2, 16])]) + lab + b'\x00' * (30 - len(lab)),
                              bytes([0x81, rng.choice([0, 1])]) + ntfs.rnd_bytes(rng, 30), bytes([0x82]) + ntfs.rnd_bytes(rng, 31), bytes([0x80]) + b'\x00' * 31])
            if rng.random() < 0.5:
                raw = b''
        buf += raw
    if rng.random() < 0.2:
        # The end of the buffer cuts the last set.
        buf = buf[:len(buf) // 512 * 512] or buf
    compare(mon, buf, root, 'root=%s damage=%s' % (root, kinds))
    mon.sig(buf)
    mon.sample('%d bytes, root=%s, damage kinds %s' % (len(buf), root, kinds))


def case_flip(rng, mon):
    """Every byte of one allocated set is damaged in turn; the set must vanish, its neighbours must stay."""
    before, e0 = rnd_set(rng, mon)
    m = rnd_meta(rng)
    big = rng.random() < 0.05
    name = X.rnd_name(rng, 40)
    raw = X.entry_set(rng, m, name, rng.choice([17, 40, 58]) if big else rng.choice([0, 0, 1]))
    if big:
        mon.count('big_sets')
    after, e2 = rnd_set(rng, mon)
    me = m.expect(name, False)
    a, b = len(before), len(before) + len(raw)
    whole = before + raw + after
    whole += b'\x00' * (-len(whole) % 512)
    got = [e[1:] for e in observe(whole, False)[0] if e[0] == 'file']
    mon.equal(got, [e0, me, e2], 'intact-sets', name)
    delta = rng.randint(1, 255)
    for i in range(a, b):
        cor = bytearray(whole)
        cor[i] ^= delta
        t = cor[i]
        compare(mon, cor, False, 'byte %d of the set changed by xor %02x' % (i - a, delta))
        mon.count('byte_flips')
        if (i - a) % 32 == 0:
            continue        # the type of an entry: deleted, end mark and so on; judged by the reference reader above
        got = [e[1:] for e in observe(bytes(cor), False)[0] if e[0] == 'file']
        n = 32 * (1 + cor[a + 1])
        stored = struct.unpack_from('<H', cor, a + 2)[0]
        if n == len(raw):
            mon.check(stored != X.set_checksum(cor[a:b]), 'model:single-byte-damage-undetected')
            mon.equal(got, [e0, e2], 'damaged-set', 'byte %d xor %02x' % (i - a, delta))
            mon.count('following_sets_seen')
            mon.count('sets_rejected')
    mon.equal(exFAT.EntrySetChecksum(raw), struct.unpack_from('<H', raw, 2)[0], 'entry-set-checksum')
    mon.count('checksum_functions')
    mon.sig(raw, delta)


def boot_volume(rng, mon, bps):
    g = X.Geometry(rng, bps)
    return X.Volume(rng, mon, g, maxfiles=3)


def opened(image):
    try:
        p = exFAT.FileSystemParser(MonFile(image))
    except exFAT.BootRegionException:
        return None
    return p


def walk_log(p):
    return sorted(repr(e) for e in p.walk())


def case_boot(rng, mon):
    bps = rng.choice([512, 512, 512, 4096])
    v = boot_volume(rng, mon, bps)
    g = v.g
    n = 12 * bps
    p = opened(v.image)
    mon.check(p is not None and p.backup_used is False, 'intact-volume', 'refused or backup used')
    base = walk_log(p)
    mon.equal((p.br.get_volumelength(), p.br.get_fatoffset(), p.br.get_fatlength(), p.br.get_clusterheapoffset(), p.br.get_clustercount(), p.br.get_firstclusterofrootdirectory(), p.br.get_bytespersector(), p.br.get_sectorspercluster(),
               p.br.get_numberoffats(), p.br.get_filesystemrevision(), p.br.get_volumeserialnumber()),
              (g.vlen, g.fatoff, g.fatlen, g.heap, g.count, g.root, g.bps, g.spc, g.nfats, (1, 0), struct.unpack_from('<L', v.br, 100)[0]), 'boot-fields')
    mon.equal(p.br.calculate_checksum(), X.rot_sum(v.br[:bps * 11], (106, 107, 112), 32), 'boot-checksum')
    flags, pct = v.br[106], v.br[112]
    mon.equal((p.br.get_volumeflags(), p.br.get_percentinuse()), (tuple(bool(flags >> i & 1) for i in range(4)), pct if pct <= 100 else None), 'boot-flags')
    mon.count('checksum_functions')
    for __ in range(10):
        i = rng.choice([rng.randrange(512), rng.randrange(64, 128), rng.randrange(11 * bps), 11 * bps + rng.randrange(12)])
        if i in (106, 107, 112):
            continue
        delta = rng.randint(1, 255)
        img = bytearray(v.image)
        img[i] ^= delta
        q = opened(bytes(img))
        mon.check(q is not None, 'backup-not-used', 'main boot region damaged at byte %d (xor %02x), bps %d: refused' % (i, delta, bps))
        mon.check(q.backup_used is True, 'damaged-region-used', 'byte %d xor %02x bps %d' % (i, delta, bps))
        mon.count('boot_flips')
        mon.count('boot_backup_used')
        mon.equal(walk_log(q), base, 'backup-results', 'byte %d' % i)
        j = rng.choice([i, rng.randrange(512), rng.randrange(11 * bps)])
        if j in (106, 107, 112):
            continue
        img[n + j] ^= delta
        mon.check(opened(bytes(img)) is None, 'damaged-regions-used', 'bytes %d and %d xor %02x bps %d' % (i, n + j, delta, bps))
        mon.count('boot_refused')
    # The backup alone is damaged: the main region is used.
    img = bytearray(v.image)
    img[n + rng.randrange(11 * bps)] ^= rng.randint(1, 255)
    q = opened(bytes(img))
    mon.check(q is not None and q.backup_used is False, 'main-region-not-used')
    # Bytes that the checksum does not cover.
    img = bytearray(v.image)
    img[112] = rng.choice([0, 7, 100, 101, 254, 255])
    img[106] ^= rng.choice([0, 2, 4, 8])
    q = opened(bytes(img))
    mon.check(q is not None and q.backup_used is False, 'uncovered-bytes-refused')
    mon.equal(walk_log(q), base, 'uncovered-bytes-results')
    # A valid backup for the wrong sector size (the intact region of another volume in its place).
    if rng.random() < 0.5:
        other = 4096 if bps == 512 else 512
        o = X.Geometry(rng, other)
        o.root = 2
        if bps == 4096:
            img = bytearray(v.image)
            img[0:512] = b'\x00' * 512
            br = X.boot_region(rng, o)
            img[12 * 4096:24 * 4096] = b'\x00' * (12 * 4096)
            img[12 * 4096:12 * 4096 + len(br)] = br
        else:
            img = bytearray(max(len(v.image), 4 << 20))
            img[:len(v.image)] = v.image
            img[0:512] = b'\x00' * 512
            br = X.boot_region(rng, o)
            img[12 * 512:12 * 512 + len(br)] = br
        mon.check(opened(bytes(img)) is None, 'backup-of-other-sector-size-used', 'bps %d' % bps)
        mon.count('wrong_sector_backup')
    mon.sig(bps, v.br)


def case_bounds(rng, mon):
    """Fields at and beyond their limits, under a correct checksum."""
    g = X.Geometry(rng, rng.choice([512, 512, 4096]))
    g.root = rng.randint(2, g.count + 1)
    maxfat = g.heap - g.fatlen * g.nfats
    k = rng.choice(['name', 'sig', 'zero', 'vlen', 'vlen_min', 'fatoff_min', 'fatoff_max', 'fatlen_min', 'fatlen_max', 'heap_min', 'heap_max', 'count', 'root_min', 'root_max', 'version', 'minor', 'shift', 'cshift', 'nfats', 'active', 'ok', 'checksum', 'copies'])
    over, ok = {}, True
    if k == 'name':
        over['name'] = rng.choice([b'EXFAT\x00\x00\x00', b'exFAT   ', b'NTFS    ', b'EXFAT  \x00'])
        ok = False
    elif k == 'sig':
        over['sig'] = rng.choice([b'\xaa\x55', b'\x55\x00', b'\x00\xaa'])
        ok = False
    elif k == 'zero':
        z = bytearray(53)
        z[rng.choice([0, 52, rng.randrange(53)])] = rng.randint(1, 255)
        over['zero'] = bytes(z)
        ok = False
    elif k == 'vlen':
        over['vlen'] = g.heap + g.count * g.spc - rng.choice([0, 1, 2])
        ok = over['vlen'] >= g.heap + g.count * g.spc and over['vlen'] * g.bps >= 1 << 20
    elif k == 'vlen_min':
        g.fatlen = -(-(40 + 2) * 4 // g.bps)
        g.heap = g.fatoff + g.fatlen * g.nfats
        over.update(fatlen=g.fatlen, heap=g.heap, count=40, root=2, cshift=0, vlen=(1 << 20) // g.bps - rng.choice([0, 1]))
        ok = over['vlen'] * g.bps >= 1 << 20 and over['vlen'] >= g.heap + 40
    elif k == 'fatoff_min':
        over['fatoff'] = rng.choice([0, 1, 23, 24])
        ok = over['fatoff'] == 24
    elif k == 'fatoff_max':
        over['fatoff'] = maxfat + rng.choice([0, 1])
        ok = over['fatoff'] == maxfat
    elif k == 'fatlen_min':
        least = -(-(g.count + 2) * 4 // g.bps)
        over['fatlen'] = least - rng.choice([0, 1])
        ok = over['fatlen'] == least
    elif k == 'fatlen_max':
        most = (g.heap - g.fatoff) // g.nfats
        over['fatlen'] = most + rng.choice([0, 1])
        ok = over['fatlen'] == most
    elif k == 'heap_min':
        over['heap'] = g.fatoff + g.fatlen * g.nfats - rng.choice([0, 1])
        ok = over['heap'] == g.fatoff + g.fatlen * g.nfats
    elif k == 'heap_max':
        over['heap'] = g.vlen - g.count * g.spc + rng.choice([0, 1])
        ok = over['heap'] <= g.vlen - g.count * g.spc
    elif k == 'count':
        over['count'] = (g.vlen - g.heap) // g.spc + rng.choice([0, 1])
        over['fatlen'] = g.fatlen
        fits = g.fatlen * g.bps >= (over['count'] + 2) * 4
        ok = fits and over['count'] * g.spc <= g.vlen - g.heap
    elif k == 'root_min':
        over['root'] = rng.choice([0, 1, 2])
        ok = over['root'] == 2
    elif k == 'root_max':
        over['root'] = g.count + rng.choice([1, 2, 1000])
        ok = over['root'] == g.count + 1
    elif k == 'version':
        over['major'] = rng.choice([0, 1, 2, 99, 100, 255])
        ok = over['major'] == 1
    elif k == 'minor':
        over['minor'] = rng.choice([0, 99, 100, 255])
        ok = over['minor'] <= 99
    elif k == 'shift':
        over['shift'] = rng.choice([0, 8, 13, 255])
        ok = False
    elif k == 'cshift':
        over['cshift'] = 25 - (g.bps.bit_length() - 1) + rng.choice([1, 2, 100])
        ok = False
    elif k == 'nfats':
        over['nfats'] = rng.choice([0, 3, 255])
        ok = False
    elif k == 'active':
        g.nfats = 1
        over['nfats'] = 1
        over['flags'] = rng.choice([0, 1])
        ok = over['flags'] == 0
    br = bytearray(X.boot_region(rng, g, **over))
    if k == 'checksum':
        o = 11 * g.bps
        w = struct.pack('<L', struct.unpack_from('<L', br, o)[0] ^ (1 << rng.randrange(32)))
        br[o:o + g.bps] = w * (g.bps // 4)
        ok = False
    if k == 'copies':
        br[11 * g.bps + rng.randrange(12)] ^= 1 << rng.randrange(8)
        ok = False
    try:
        exFAT.BR(bytes(br))
        got = True
    except (exFAT.BootRegionException, NotImplementedError):
        got = False
    mon.equal(got, ok, 'boot-bounds', '%s %s bps=%d spc=%d heap=%d count=%d vlen=%d fatoff=%d fatlen=%d nfats=%d' % (k, clip(over, 200), g.bps, g.spc, g.heap, g.count, g.vlen, g.fatoff, g.fatlen, g.nfats))
    mon.count('bounds_accepted' if ok else 'bounds_refused')
    mon.sig(k, over, bytes(br[:512]))


ATTRS = {1: 'READ_ONLY', 2: 'HIDDEN', 4: 'SYSTEM', 8: 'UNKNOWN8_MACOS', 0x10: 'DIRECTORY', 0x20: 'ARCHIVE'}


def case_text(rng, mon):
    a = rng.choice([rng.getrandbits(16), 1 << rng.randrange(16), rng.getrandbits(6)])
    mon.equal(set(filter(None, exFAT.ResolveFileAttributes(a).split(' | '))), set(v for k, v in ATTRS.items() if a & k), 'attribute-text', hex(a))
    mon.count('attribute_text')
    mon.sig(a)


FAMILIES = [('text', case_text, 500, 5000), ('directory', case_directory, 12000, 200000), ('flip', case_flip, 250, 4000), ('boot', case_boot, 120, 2500), ('bounds', case_bounds, 3000, 40000)]
