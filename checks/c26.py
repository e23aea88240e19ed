"""C26: volume, log and snapshot headers report exactly what is stored."""
import struct, uuid, io, warnings
from lib.harness import MonFile, clip
from lib import ntfs, exfatgen as X
from dfir_ntfs import BootSector, LogFile, ShadowCopy
from dfir_ntfs.addons import FAT, exFAT

PROPERTY = 'C26'
RULE = ('each case fills a boot sector, information sector, boot region, log restart page, client checkpoint, snapshot start block or catalog block with random (mostly extreme or one-field-distinct) values under a valid frame, '
        'reads every reported field through the library and compares it with the value that was stored there; frames made invalid in one field have to be refused. Distinct = distinct headers.')
REQUIRED = ['fat12', 'fat16', 'fat32', 'fat_type_boundary', 'fat_second_copy', 'fat_totsec64', 'ext_0x29', 'ext_0x28', 'ext_none', 'fat_no_signature', 'fat_refused', 'fsinfo', 'fsinfo_refused', 'fat_flags',
            'exfat', 'exfat_flash', 'exfat_large_sector', 'ntfs', 'ntfs_refused', 'ntfs_small_records', 'log_pages', 'log_clients', 'log_refused', 'checkpoints', 'checkpoint_short', 'start_blocks', 'start_refused', 'catalog_items', 'blocks']
ASSUMPTIONS = ['FAT headers that mix FAT32 and FAT12/16 fields (a 16-bit table size together with a 32-bit one) and NTFS boot sectors whose first instruction has one zero byte are outside the judged domain.',
               'Log pages other than 4096 bytes and unknown format versions are refused by the library as not implemented; they are not judged.']

FLASH = uuid.UUID('{0A0C7E46-3399-4021-90C8-FA6D389C4BA2}')
VSS = uuid.UUID('{3808876b-c176-4e48-b7ae-04046e6cc752}').bytes_le
U8, U16, U32, U64 = (1 << 8) - 1, (1 << 16) - 1, (1 << 32) - 1, (1 << 64) - 1


def num(rng, bits, lo=0):
    hi = (1 << bits) - 1
    v = rng.choice([lo, hi, 1 << (bits - 1), rng.getrandbits(bits), rng.getrandbits(bits), rng.getrandbits(max(1, bits // 2)), hi - 1])
    return max(lo, v)


def fields(mon, obj, want, what, ctx):
    for name, w in want.items():
        f = getattr(obj, name)
        got = f()
        if isinstance(w, bytes):
            got = bytes(got)
        if isinstance(w, bool):
            got = bool(got)
        if got != w or (w is None) != (got is None):
            mon.fail('%s.%s' % (what, name), 'got %s, stored %s; %s' % (clip(got, 300), clip(w, 300), ctx))
        mon.count('checks')


# --- FAT ----------------------------------------------------------------------------

def fat_header(rng, typ):
    """A valid header: (512 bytes, dict of what is stored)."""
    h = dict(typ=typ)
    h['bps'] = rng.choice([512, 512, 1024, 2048, 4096])
    h['spc'] = 1 << rng.randrange(8)
    if rng.random() < 0.04:
        h['spc'] = 256
    h['nf'] = rng.choice([1, 2, 2, 3, 8, 16])
    h['rsvd'] = rng.choice([1, 2, 32, rng.randint(1, 500)])
    edge = rng.random() < 0.4
    if typ == 12:
        n = rng.choice([4084, 4083, 1]) if edge else rng.randint(1, 4084)
    elif typ == 16:
        n = rng.choice([4085, 4086, 65524, 65523]) if edge else rng.randint(4085, 65524)
    else:
        n = rng.choice([65525, 65526, 65524, 4085, 4084, 1, (1 << 28) - 20]) if edge else rng.randint(1, 1 << rng.choice([10, 17, 27]))
    h['n'], h['edge'] = n, edge
    bits = typ
    h['fatsz'] = -(-(((n + 2) * bits + 7) // 8) // h['bps']) + rng.choice([0, 0, 1, 5])
    h['rootents'] = 0 if typ == 32 else rng.choice([16, 112, 224, 512, rng.randint(1, 4095)])
    rootsec = -(-h['rootents'] * 32 // h['bps'])
    h['total'] = h['rsvd'] + h['nf'] * h['fatsz'] + rootsec + n * h['spc'] + rng.choice([0, h['spc'] - 1])
    boot = rng.choice([0x29, 0x29, 0x28, 0, 0x2A, 0x27, num(rng, 8)])
    where = [w for w in (16, 32, 64) if h['total'] < 1 << w]
    if typ != 32 or rng.random() < 0.85:
        where = [w for w in where if w != 64]
    w = rng.choice(where) if where else None
    if w is None:
        w, boot = 64, 0x29
    if w == 64:
        boot = 0x29
    h['w'], h['boot'] = w, boot
    h['t16'] = h['total'] if w == 16 else 0
    h['t32'] = h['total'] if w == 32 else (rng.choice([0, 0, h['total'], num(rng, 32)]) if w == 16 else 0)
    h['media'] = rng.choice([0xF0, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF])
    h['jump'] = rng.choice([b'\xeb\x3c\x90', b'\xe9\x00\x01', b'\xeb\x00\x00'])
    h['oem'] = ntfs.rnd_bytes(rng, 8)
    h['spt'], h['heads'], h['hidden'] = num(rng, 16), num(rng, 16), num(rng, 32)
    h['drive'], h['dirty'], h['volid'] = num(rng, 8), rng.choice([0, 1, 2, 3, 0xFC, num(rng, 8)]), num(rng, 32)
    h['label'], h['fstype'] = ntfs.rnd_bytes(rng, 11), ntfs.rnd_bytes(rng, 8)
    if w == 64:
        h['fstype'] = struct.pack('<Q', h['total'])
    h['ext'] = (rng.choice([0, 1, h['nf'] - 1, h['nf'], 15]) & 15) | rng.choice([0, 0x80, 0x80]) | (rng.getrandbits(16) & 0xFF70)
    h['root'] = max(2, num(rng, 28, 2))
    h['info'], h['backup'] = num(rng, 16, 1), num(rng, 16, 1)
    h['res'] = ntfs.rnd_bytes(rng, 12)
    return h, fat_pack(rng, h)


def fat_pack(rng, h):
    b = bytearray(ntfs.rnd_bytes(rng, 512))
    b[0:11] = h['jump'] + h['oem']
    struct.pack_into('<HBHBHHBHHHLL', b, 11, h['bps'], h['spc'] & 255, h['rsvd'], h['nf'], h['rootents'], h['t16'], h['media'],
                     0 if h['typ'] == 32 else h['fatsz'], h['spt'], h['heads'], h['hidden'], h['t32'])
    o = 36
    if h['typ'] == 32:
        struct.pack_into('<LHHLHH12s', b, 36, h['fatsz'], h['ext'], 0, h['root'], h['info'], h['backup'], h['res'])
        o = 64
    struct.pack_into('<BBBL11s8s', b, o, h['drive'], h['dirty'], h['boot'], h['volid'], h['label'], h['fstype'])
    b[510:512] = b'\x55\xaa'
    return b


def fat_open(b, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return FAT.BSBPB(bytes(b), **kw)


def case_fat(rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fat(rng, mon)


def fat(rng, mon):
    typ = rng.choice([12, 16, 32])
    h, b = fat_header(rng, typ)
    if h['typ'] != 32 and h['fatsz'] > U16:
        return
    ctx = ', '.join('%s=%s' % (k, v) for k, v in sorted(h.items()))
    if rng.random() < 0.15:
        b[510:512] = rng.choice([b'\x00\x00', b'\xaa\x55', b'\x55\xab'])       # the jump instruction suffices
        mon.count('fat_no_signature')
    bs = FAT.BSBPB(bytes(b))
    mon.count('fat%d' % typ)
    if h['edge']:
        mon.count('fat_type_boundary')
    is32 = typ == 32
    want = dict(get_bs_jmpboot=bytes(h['jump']), get_bs_oemname=h['oem'], get_bpb_bytspersec=h['bps'], get_bpb_secperclus=h['spc'], get_bpb_rsvdseccnt=h['rsvd'], get_bpb_numfats=h['nf'],
                get_bpb_rootentcnt=h['rootents'], get_bpb_totsec16=h['t16'], get_bpb_media=h['media'], get_bpb_fatsz16=0 if is32 else h['fatsz'], get_bpb_secpertrk=h['spt'], get_bpb_numheads=h['heads'],
                get_bpb_hiddsec=h['hidden'], get_bpb_totsec32=h['t32'], get_signature=bytes(b[510:512]), get_bs_drvnum=h['drive'], get_bs_dirty_flags=h['dirty'], get_bs_bootsig=h['boot'],
                get_bpb_fatsz32=h['fatsz'] if is32 else None, get_bpb_fsver=0 if is32 else None, get_bpb_rootclus=h['root'] if is32 else None, get_bpb_fsinfo=h['info'] if is32 else None,
                get_bpb_bkbootsec=h['backup'] if is32 else None, get_bpb_reserved=h['res'] if is32 else None)
    fields(mon, bs, want, 'fat', ctx)
    mon.equal(tuple(bs.get_bpb_extflags()), (h['ext'] & 15, bool(h['ext'] & 0x80)) if is32 else (None, None), 'fat.ext-flags', ctx)
    mon.equal(tuple(bool(x) for x in bs.is_volume_dirty()), (bool(h['dirty'] & 1), bool(h['dirty'] & 2)), 'fat.dirty', ctx)
    got = bs.get_bs_extfields()
    got = tuple(bytes(x) if isinstance(x, (bytes, bytearray)) else x for x in got)
    if h['boot'] == 0x29:
        mon.count('ext_0x29')
        w = (h['volid'], h['label'], h['fstype'])
    elif h['boot'] == 0x28:
        mon.count('ext_0x28')
        w = (h['volid'], None, None)
    else:
        mon.count('ext_none')
        w = (None, None, None)
    mon.equal(got, w, 'fat.extended-fields', ctx)
    t64 = bs.get_bs_totsec64()
    if h['w'] == 64:
        mon.count('fat_totsec64')
        mon.equal(t64, h['total'], 'fat.total-64', ctx)
    else:
        mon.equal(t64, None, 'fat.total-64', ctx)
    mon.equal(bool(bs.is_fat32), is32, 'fat.is-fat32', ctx)
    mon.equal(FAT.GetCountOfClusters(bs), h['n'], 'fat.cluster-count', ctx)
    if is32:
        mon.equal(bool(FAT.IsFileSystem32(bs, True)), True, 'fat.type', ctx)
    else:
        mon.equal((bool(FAT.IsFileSystem16(bs, True)), bool(FAT.IsFileSystem12(bs, True))), (typ == 16, typ == 12), 'fat.type', ctx)
    copy = 0
    if is32 and h['ext'] & 0x80 and h['ext'] & 15 < h['nf']:
        copy = h['ext'] & 15
        if copy:
            mon.count('fat_second_copy')
    mon.equal(tuple(bs.fat_offset_and_size()), ((h['rsvd'] + copy * h['fatsz']) * h['bps'], h['fatsz'] * h['bps'], h['n'] + 1), 'fat.table-position', ctx)
    mon.equal(bool(FAT.IsFileSystemUnusual12Or16(h['n'], True)), 4079 <= h['n'] <= 4086, 'fat.unusual', ctx)
    mon.sig(('fat', typ, h['w'], h['boot'], h['edge'], copy))


def case_fat_refused(rng, mon):
    typ = rng.choice([12, 16, 32])
    h, b = fat_header(rng, typ)
    if h['typ'] != 32 and h['fatsz'] > U16:
        return
    kind = rng.choice(['bps', 'spc', 'rsvd', 'fats', 'total', 'frame', 'size', 'clusters', 'media', 'root', 'info', 'backup'])
    ctx = '%s in %s' % (kind, h)
    late = None
    if kind == 'bps':
        h['bps'] = rng.choice([0, 256, 511, 513, 768, 8192, 1536, 3072, 0xFFFF])
        b = fat_pack(rng, h)
    elif kind == 'spc':
        h['spc'] = rng.choice([3, 5, 6, 7, 9, 12, 17, 33, 48, 65, 96, 127, 129, 192, 255])
        b = fat_pack(rng, h)
    elif kind == 'rsvd':
        h['rsvd'] = 0
        b = fat_pack(rng, h)
    elif kind == 'fats':
        h['nf'] = 0
        b = fat_pack(rng, h)
    elif kind == 'total':
        h['t16'] = h['t32'] = 0
        h['boot'] = rng.choice([0, 0x28, 0x2A]) if typ == 32 else h['boot']
        b = fat_pack(rng, h)
    elif kind == 'frame':
        b[510:512] = rng.choice([b'\x00\x00', b'\xaa\x55', b'\x55\xab'])
        b[0] = rng.choice([0, 0xEA, 0xE8, 0xEC, 0x55, 0x90])
    elif kind == 'size':
        b = rng.choice([b[:511], b[:256], b + b'\x00', b + b, b''])
    elif kind == 'clusters':
        h, b = fat_header(rng, 16)
        n = rng.choice([65525, 65526, 70000])
        h['spc'], h['bps'], h['nf'] = 1, 512, 1
        h['fatsz'] = -(-(n + 2) * 2 // 512)
        h['t16'], h['t32'] = 0, h['rsvd'] + h['fatsz'] + -(-h['rootents'] * 32 // 512) + n
        b = fat_pack(rng, h)
    elif kind == 'media':
        h['media'] = rng.choice([0, 0xF1, 0xF7, 0xF2, 0x12, 0xEF])
        b = fat_pack(rng, h)
        late = 'get_bpb_media'
    elif typ != 32:
        return
    elif kind == 'root':
        h['root'] = rng.choice([0, 1])
        b = fat_pack(rng, h)
        late = 'get_bpb_rootclus'
    elif kind == 'info':
        h['info'] = 0
        b = fat_pack(rng, h)
        late = 'get_bpb_fsinfo'
    else:
        h['backup'] = 0
        b = fat_pack(rng, h)
        late = 'get_bpb_bkbootsec'
    if late:
        bs = fat_open(b)
        mon.raises((FAT.FileSystemException,), lambda: getattr(bs, late)(), 'fat-refused:' + kind, ctx)
    else:
        mon.raises((FAT.FileSystemException,), lambda: fat_open(b).get_bpb_bytspersec(), 'fat-refused:' + kind, ctx)
        if kind == 'frame':         # when asked to overlook the frame, the same header is readable
            mon.equal(fat_open(b, relaxed_checks=True).get_bpb_hiddsec(), h['hidden'], 'fat.relaxed', ctx)
    mon.count('fat_refused')
    mon.sig(('refused', kind, typ))


def case_fsinfo(rng, mon):
    r1, r2 = ntfs.rnd_bytes(rng, 480), ntfs.rnd_bytes(rng, 12)
    free, nxt = num(rng, 32), num(rng, 32)
    b = bytearray(b'RRaA' + r1 + b'rrAa' + struct.pack('<LL', free, nxt) + r2 + b'\x00\x00\x55\xaa')
    o = FAT.FSINFO(bytes(b))
    fields(mon, o, dict(get_fsi_reserved1=r1, get_fsi_free_count=free, get_fsi_nxt_free=nxt, get_fsi_reserved2=r2), 'fsinfo', 'free=%d next=%d' % (free, nxt))
    mon.equal(tuple(o.get_fsi_signatures()), (0x41615252, 0x61417272, 0xAA550000), 'fsinfo.signatures', '')
    mon.count('fsinfo')
    p = rng.choice([0, 1, 2, 3, 484, 485, 486, 487, 508, 509, 510, 511])
    b[p] ^= 1 << rng.randrange(8)
    mon.raises((FAT.FileSystemException,), lambda: FAT.FSINFO(bytes(b)), 'fsinfo-refused', 'byte %d changed' % p)
    mon.count('fsinfo_refused')
    mon.sig(('fsinfo', p, free >> 28, nxt >> 28))


def case_fat_flags(rng, mon):
    """The first two elements of a table carry the media type and the state of the volume."""
    typ = rng.choice([12, 16, 32])
    off = rng.choice([0, 512, 4096])
    t = bytearray(ntfs.rnd_bytes(rng, 512))
    media = num(rng, 8)
    f = rng.choice([0, 1, 2, 3])
    if typ == 12:
        t[0:3] = bytes([media, 0xF0 | rng.getrandbits(4), num(rng, 8)])
    elif typ == 16:
        struct.pack_into('<HH', t, 0, media | 0xFF00, (rng.getrandbits(14)) | f << 14)
    else:
        struct.pack_into('<LL', t, 0, media | rng.choice([0x0FFFFF00, 0xFFFFFF00]), rng.getrandbits(26) | f << 26 | rng.getrandbits(4) << 28)
    o = FAT.FAT(MonFile(ntfs.rnd_bytes(rng, off) + bytes(t)), off, 512, rng.choice([100, 300]), typ)
    ctx = 'FAT%d %s' % (typ, bytes(t[:8]).hex())
    mon.equal(o.get_bpb_media(), media, 'fat-media', ctx)
    mon.equal(o.is_volume_dirty(), None if typ == 12 else not f & 2, 'fat-table-dirty', ctx)
    mon.equal(o.are_hard_errors_detected(), None if typ == 12 else not f & 1, 'fat-table-errors', ctx)
    e = exFAT.FAT(MonFile(ntfs.rnd_bytes(rng, off) + struct.pack('<L', 0xFFFFFF00 | media) + bytes(t[4:])), off, 512, 100)
    mon.equal(e.get_media_type(), media, 'exfat-media', ctx)
    mon.count('fat_flags')
    mon.sig(('flags', typ, f, media >> 4))


# --- exFAT --------------------------------------------------------------------------

def case_exfat(rng, mon):
    g = X.Geometry(rng)
    g.root = rng.choice([2, g.count + 1, rng.randint(2, g.count + 1)])
    flags = rng.choice([0, 2, 4, 8, 14, rng.getrandbits(16) & 0xFFFE]) | g.active
    f = dict(partoff=num(rng, 64), serial=num(rng, 32), minor=rng.choice([0, 0, 1, 99]), flags=flags, drive=num(rng, 8), percent=rng.choice([0, 1, 50, 99, 100, 101, 0xFF]))
    b = bytearray(X.boot_region(rng, g, **f))
    b[0:3] = rng.choice([b'\xeb\x76\x90', b'\xeb\x77\x91'])
    b[113:120] = ntfs.rnd_bytes(rng, 7)
    sigs = []
    for i in range(1, 9):
        s = rng.choice([b'\x00\x00\x55\xaa', ntfs.rnd_bytes(rng, 4)])
        # the library documents the signature at the end of the first 512 bytes of an extended sector
        b[g.bps * i + 508:g.bps * i + 512] = s
        sigs.append(s)
    o = g.bps * 10
    flash = tuple(num(rng, 32) for __ in range(7))
    guid = uuid.UUID(bytes_le=ntfs.rnd_bytes(rng, 16))
    if rng.random() < 0.5:
        guid = FLASH
        mon.count('exfat_flash')
    b[o:o + 44] = guid.bytes_le + struct.pack('<7L', *flash)
    b = X.seal(b, g.bps)
    br = exFAT.BR(b)
    ctx = 'bps=%d spc=%d %s' % (g.bps, g.spc, f)
    if g.bps > 512:
        mon.count('exfat_large_sector')
    want = dict(get_bs_jmpboot=bytes(b[:3]), get_bs_fsname=b'EXFAT   ', get_mustbezero=bytes(53), get_partitionoffset=f['partoff'], get_volumelength=g.vlen, get_fatoffset=g.fatoff, get_fatlength=g.fatlen,
                get_clusterheapoffset=g.heap, get_clustercount=g.count, get_firstclusterofrootdirectory=g.root, get_volumeserialnumber=f['serial'], get_bytespersector=g.bps, get_sectorspercluster=g.spc,
                get_numberoffats=g.nfats, get_driveselect=f['drive'], get_percentinuse=f['percent'] if f['percent'] <= 100 else None, get_reserved=bytes(b[113:120]), get_bs_bootcode=bytes(b[120:510]),
                get_bs_signature=b'\x55\xaa', get_oem_guid=guid, get_checksum=struct.unpack_from('<L', b, g.bps * 11)[0], calculate_checksum=struct.unpack_from('<L', b, g.bps * 11)[0])
    fields(mon, br, want, 'exfat', ctx)
    mon.equal(tuple(br.get_filesystemrevision()), (1, f['minor']), 'exfat.revision', ctx)
    mon.equal(tuple(bool(x) for x in br.get_volumeflags()), tuple(bool(flags >> i & 1) for i in range(4)), 'exfat.flags', ctx)
    mon.equal(tuple(br.get_oem_flash_parameters()), flash if guid == FLASH else (None,) * 7, 'exfat.flash', ctx)
    if g.bps == 512:
        for i in range(1, 9):
            mon.equal(bytes(br.get_ebs_signature(i)), sigs[i - 1], 'exfat.extended-signature', '%d %s' % (i, ctx))
    mon.count('exfat')
    mon.sig(('exfat', g.bps, g.spc, flags & 15, guid == FLASH))


# --- NTFS ---------------------------------------------------------------------------

def case_ntfs(rng, mon):
    bps = rng.choice([512, 512, 1024, 2048, 4096, 8192, 32768])
    code = rng.choice([1, 2, 4, 8, 16, 32, 64, 128, rng.randint(225, 255)])
    spc = code if code <= 128 else 1 << (256 - code)
    total, mft, mirr, serial = num(rng, 64, 1), num(rng, 64, 1), num(rng, 64, 1), num(rng, 64)
    codes, sizes = [], []
    for __ in range(2):
        c = rng.choice([-9, -10, -11, -12, -13, -16, 1, 2, 4, 127, rng.randint(1, 127), -rng.randint(1, 31)])
        codes.append(c)
        sizes.append(1 << -c if c < 0 else c * spc * bps)
        if c < 0:
            mon.count('ntfs_small_records')
    b = bytearray(ntfs.rnd_bytes(rng, rng.choice([512, 512, 1024, 4096])))
    b[:512] = ntfs.rnd_bytes(rng, 512)
    base = ntfs.boot_sector(bps, 1, total, mft, mirr, codes[0], codes[1], serial, spc_code=code)
    for lo, hi in ((3, 14), (40, 65), (68, 69), (72, 80)):
        b[lo:hi] = base[lo:hi]
    boot = rng.choice(['yes', 'no-code', 'no-signature', 'none'])
    b[0:2] = b'\x00\x00' if boot in ('no-code', 'none') else rng.choice([b'\xeb\x52', b'\x01\x01', b'\xff\xff', b'\x00\x01', b'\x01\x00'])
    b[510:512] = b'\x55\xaa' if boot in ('yes', 'no-code') else rng.choice([b'\x00\x00', b'\xaa\x55', b'\x55\xa0'])
    bs = BootSector.BootSector(bytes(b))
    ctx = 'bps=%d code=%d sizes=%s boot=%s' % (bps, code, codes, boot)
    fields(mon, bs, dict(get_signature=b'NTFS    ', get_bytes_per_sector=bps, get_sectors_per_cluster=spc, get_total_number_of_sectors=total, get_first_mft_cluster=mft, get_first_mftmirr_cluster=mirr,
                         get_file_record_segment_size=sizes[0], get_index_record_size=sizes[1], get_serial_number=serial, is_boot_code_present=boot == 'yes'), 'ntfs', ctx)
    mon.count('ntfs')
    mon.sig(('ntfs', bps, code, codes[0] > 0, codes[1] > 0, boot))
    bad, call = rng.choice([('size', None), ('signature', None), ('sector', 'get_bytes_per_sector'), ('sector0', 'get_bytes_per_sector'), ('cluster', 'get_sectors_per_cluster'), ('total', 'get_total_number_of_sectors'), ('mft', 'get_first_mft_cluster'),
                            ('mirror', 'get_first_mftmirr_cluster'), ('record', 'get_file_record_segment_size'), ('index', 'get_index_record_size')])
    c = bytearray(b)
    if bad == 'size':
        c = rng.choice([c[:511], c[:0], c + b'\x00', c[:256]])
    elif bad == 'signature':
        c[rng.randrange(3, 11)] ^= 1 << rng.randrange(8)
    elif bad == 'sector':
        c[11] = rng.randint(1, 255)
    elif bad == 'sector0':
        c[12] = rng.choice([0, 1, 3, 5, 7])
    else:
        lo, hi = dict(cluster=(13, 14), total=(40, 48), mft=(48, 56), mirror=(56, 64), record=(64, 65), index=(68, 69))[bad]
        c[lo:hi] = bytes(hi - lo)
    if call is None:
        mon.raises((BootSector.BootSectorException,), lambda: BootSector.BootSector(bytes(c)), 'ntfs-refused:' + bad, ctx)
    else:
        o = BootSector.BootSector(bytes(c))
        mon.raises((BootSector.BootSectorException,), lambda: getattr(o, call)(), 'ntfs-refused:' + bad, ctx)
    mon.count('ntfs_refused')


# --- the log --------------------------------------------------------------------------

def case_restart(rng, mon):
    ver = rng.choice([(1, 1), (2, 0)])
    usa = 30
    roff = rng.choice([48, 56, 64, 128, 1024])
    coff = rng.choice([48, 56, 64, 96])
    n = rng.choice([1, 1, 2, 5])
    b = bytearray(ntfs.rnd_bytes(rng, 4096))
    b[0:4] = rng.choice([b'RSTR', b'CHKD'])
    chk = num(rng, 64)
    struct.pack_into('<HHQLLHHH', b, 4, usa, 9, chk, 4096, 4096, roff, ver[1], ver[0])
    free = rng.choice([0xFFFF, 0, n - 1])
    used = rng.choice([0xFFFF, 0, n - 1])
    a = dict(get_current_lsn=num(rng, 64), get_log_clients=n, get_client_free_list=free, get_client_in_use_list=used, get_flags=num(rng, 16), get_sequence_number_bits=num(rng, 32), get_restart_area_length=num(rng, 16),
             get_client_array_offset=coff, get_file_size=num(rng, 63), get_last_lsn_data_length=num(rng, 32), get_record_header_length=num(rng, 16), get_log_page_data_offset=num(rng, 16), get_revision_number=num(rng, 32))
    struct.pack_into('<QHHHHLHHqLHHL', b, roff, *a.values())
    cl = []
    for k in range(n):
        name = rng.choice(['NTFS', '', 'A', 'x' * 64, ntfs.rnd_name(rng, 1, 12, astral=False)])
        raw = name.encode('utf-16le')
        c = dict(get_oldest_lsn=num(rng, 64), get_client_restart_lsn=num(rng, 64), get_prev_client=num(rng, 16), get_next_client=num(rng, 16), get_sequence_number=num(rng, 16))
        p = roff + coff + 160 * k
        struct.pack_into('<QQHHH', b, p, *c.values())
        struct.pack_into('<L', b, p + 28, len(raw))
        b[p + 32:p + 32 + len(raw)] = raw
        c['get_client_name_length'], c['get_client_name'] = len(raw), name
        cl.append(c)
    plain = bytes(b)
    raw = ntfs.usa_protect(bytearray(plain), usa, rng.choice([b'\x01\x00', ntfs.rnd_bytes(rng, 2)]))
    pg = LogFile.RestartPage(bytes(raw))
    ctx = 'version=%s restart=%d clients=%d at %d %s' % (ver, roff, n, coff, a)
    fields(mon, pg, dict(get_chkdsk_lsn=chk, get_system_page_size=4096, get_log_page_size=4096, get_restart_offset=roff, get_major_version=ver[0], get_minor_version=ver[1]), 'restart-page', ctx)
    ar = pg.get_restart_area()
    fields(mon, ar, a, 'restart-area', ctx)
    got = list(ar.clients())
    mon.equal(len(got), n, 'restart-area.clients', ctx)
    for k, c in enumerate(got):
        fields(mon, c, cl[k], 'client', '%d %s %s' % (k, cl[k], ctx))
        mon.count('log_clients')
    mon.count('log_pages')
    mon.sig(('log', ver, roff, coff, n))
    # One field out of its bounds.
    c = bytearray(plain)
    kind = rng.choice(['signature', 'restart', 'array', 'free', 'used', 'name', 'page'])
    if kind == 'signature':
        c[rng.randrange(4)] ^= 0x20
    elif kind == 'restart':
        struct.pack_into('<H', c, 24, rng.choice([0, 4096, roff + 1, roff + 4, 0xFFF8]))
    elif kind == 'array':
        struct.pack_into('<H', c, roff + 22, rng.choice([0, coff + 1, coff + 4, 4096, 0xFFF8]))
    elif kind == 'free':
        struct.pack_into('<H', c, roff + 10, rng.choice([n, n + 1, 0xFFFE]))
    elif kind == 'used':
        struct.pack_into('<H', c, roff + 12, rng.choice([n, n + 1, 0xFFFE]))
    elif kind == 'name':
        struct.pack_into('<L', c, roff + coff + 28, rng.choice([129, 130, 256, U32]))
    else:
        struct.pack_into('<L', c, rng.choice([16, 20]), rng.choice([0, 512, 513, 4097, 1000]))
    c = bytes(ntfs.usa_protect(c, usa, b'\x03\x00'))

    def use():
        a = LogFile.RestartPage(c).get_restart_area()
        for x in a.clients():
            x.get_client_name()
    mon.raises((LogFile.LogFileException,), use, 'log-refused:' + kind, ctx)
    mon.count('log_refused')


NR = [('get_major_version', 'L'), ('get_minor_version', 'L'), ('get_start_of_checkpoint_lsn', 'Q'), ('get_open_attribute_table_lsn', 'Q'), ('get_attribute_names_lsn', 'Q'), ('get_dirty_page_table_lsn', 'Q'), ('get_transaction_table_lsn', 'Q'),
      ('get_open_attribute_table_length', 'L'), ('get_attribute_names_length', 'L'), ('get_dirty_page_table_length', 'L'), ('get_transaction_table_length', 'L'),
      ('get_usn_journal_restart_offset', 'q'), ('get_last_lsn', 'Q'), ('get_bytes_per_cluster', 'L'), (None, 'L'), ('get_usn_journal_reference', 'Q'), ('get_usn_base', 'q'), ('get_oldest_lsn', 'Q')]


def case_checkpoint(rng, mon):
    size = rng.choice([112, 112, 64, 71, 72, 79, 80, 83, 84, 88, 95, 96, 103, 104, 111, 120])
    out, want, pos = b'', {}, 0
    for name, t in NR:
        bits = struct.calcsize('<' + t) * 8
        v = num(rng, bits)
        if t == 'q':
            v -= 1 << 63
        out += struct.pack('<' + t, v)
        pos += bits // 8
        if name:
            want[name] = v if pos <= size else None
    b = (out + ntfs.rnd_bytes(rng, 16))[:size]
    lsn = num(rng, 64)
    o = LogFile.NTFSRestartArea(b, lsn)
    fields(mon, o, want, 'checkpoint', 'size=%d %s' % (size, want))
    mon.equal(o.lsn, lsn, 'checkpoint.lsn', '')
    mon.count('checkpoints')
    if size < 112:
        mon.count('checkpoint_short')
    mon.raises((LogFile.LogFileException,), lambda: LogFile.NTFSRestartArea(out[:rng.choice([0, 1, 63, 56])], lsn), 'checkpoint-refused', '')
    mon.sig(('checkpoint', size))


# --- shadow copies ----------------------------------------------------------------------

def vss_head(rng, typ, o1, o2, o3, version=1):
    return VSS + struct.pack('<LLQQQ', version, typ, o1, o2, o3)


def case_start(rng, mon):
    b = bytearray(ntfs.rnd_bytes(rng, 8192))
    b[3:7] = rng.choice([b'NTFS', b'ReFS'])
    version = rng.choice([1, 2, num(rng, 32)])
    first = rng.choice([0, 0x4000, (num(rng, 63) // 0x4000) * 0x4000])
    vg = ntfs.rnd_bytes(rng, 16)
    sg = rng.choice([vg, ntfs.rnd_bytes(rng, 16), vg[:15] + bytes([vg[15] ^ 1])])
    q = [num(rng, 64) for __ in range(4)]
    d = [num(rng, 32) for __ in range(2)]
    blk = vss_head(rng, 1, 7680, 7680, 0, version) + struct.pack('<QQ', first, q[0]) + vg + sg + struct.pack('<QQQLL', q[1], q[2], q[3], d[0], d[1])
    b[7680:7680 + len(blk)] = blk
    o = ShadowCopy.StartBlock(bytes(b))
    fields(mon, o, dict(get_diff_area_guid_raw=VSS, get_diff_area_guid=uuid.UUID(bytes_le=VSS), get_version=version, get_type=1, get_offset_1=7680, get_offset_2=7680, get_offset_3=0, get_first_control_block_offset=first,
                        get_max_diff_area_size=q[0], get_volume_guid_raw=vg, get_volume_guid=uuid.UUID(bytes_le=vg), get_storage_guid_raw=sg, get_storage_guid=uuid.UUID(bytes_le=sg), is_storage_local=vg == sg,
                        get_application_flags=q[1], get_free_space_precopy_percentage=q[2], get_hot_blocks_precopy_percentage=q[3], get_hot_blocks_days=d[0], get_protection_flags=d[1], is_supported_volume=True),
           'start-block', 'first=%d' % first)
    mon.count('start_blocks')
    mon.sig(('start', first == 0, vg == sg))
    c = bytearray(b)
    kind = rng.choice(['signature', 'guid', 'type', 'o1', 'o2', 'o3', 'size', 'first'])
    if kind == 'signature':
        c[3:7] = rng.choice([b'NTFR', b'ntfs', b'REFS', b'EXFA'])
    elif kind == 'guid':
        c[7680 + rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif kind == 'type':
        struct.pack_into('<L', c, 7700, rng.choice([0, 2, 3, 6, 257]))
    elif kind in ('o1', 'o2', 'o3'):
        struct.pack_into('<Q', c, 7680 + {'o1': 24, 'o2': 32, 'o3': 40}[kind], rng.choice([1, 7679, 7681, 8192, U64]))
    elif kind == 'size':
        c = rng.choice([c[:8191], c + b'\x00', c[:512]])
    else:
        struct.pack_into('<Q', c, 7728, rng.choice([1, 0x3FFF, 0x4001, 512, U64, 0x2000]))
    mon.raises((ShadowCopy.ShadowCopyException, ShadowCopy.InvalidVolume), lambda: ShadowCopy.StartBlock(bytes(c)).get_first_control_block_offset(), 'start-refused:' + kind, '')
    mon.count('start_refused')


def case_catalog(rng, mon):
    o1, o2, o3 = rng.choice([0, 0x4000, 0x40000]), num(rng, 64), num(rng, 64)
    b = bytearray(ntfs.rnd_bytes(rng, 0x4000))
    b[:48] = vss_head(rng, 2, o1, o2, o3)
    want, pos = [], 0x80
    n = rng.choice([0, 1, 2, 5, 20, 127])
    for k in range(n):
        t = rng.choice([1, 2, 2, 3, 3])
        it = bytearray(ntfs.rnd_bytes(rng, 0x80))
        g = ntfs.rnd_bytes(rng, 16)
        struct.pack_into('<L', it, 0, t)
        if t == 2:
            prio, size, sp, flags, ft, u = num(rng, 8), num(rng, 64, 1), num(rng, 64), num(rng, 64), ntfs.rnd_filetime(rng), num(rng, 16)
            it[4] = prio
            it[8:58] = struct.pack('<Q', size) + g + struct.pack('<QQQH', sp, flags, ft, u)
            want.append((2, dict(get_item_type=2, get_snapshot_priority=prio, get_volume_size=size, get_store_guid_raw=g, get_store_guid=uuid.UUID(bytes_le=g), get_flags=flags, get_stack_position=sp, get_unknown_56=u), ft))
        elif t == 3:
            v = [num(rng, 64) for __ in range(8)]
            u = num(rng, 32)
            it[8:84] = struct.pack('<Q', v[0]) + g + struct.pack('<QQQQQQL', v[1], v[2], v[3], v[4], v[5], v[6], u)
            want.append((3, dict(get_item_type=3, get_diff_area_block_offset=v[0], get_store_guid_raw=g, get_store_guid=uuid.UUID(bytes_le=g), get_application_information_block_offset=v[1], get_location_description_block_offset=v[2],
                                 get_bitmap_offset=v[3], get_file_reference=v[4], get_allocation_size=v[5], get_previous_bitmap_offset=v[6], get_unknown_80=u), None))
        b[pos:pos + 0x80] = it
        pos += 0x80
    b[pos:pos + 4] = bytes(4) if pos < 0x4000 else b''
    b = b[:0x4000]
    cb = ShadowCopy.ControlBlock(bytes(b))
    ctx = '%d items' % n
    fields(mon, cb, dict(get_type=2, get_version=1, get_relative_offset=o1, get_volume_offset=o2, get_next_control_block_volume_offset=o3), 'catalog', ctx)
    got = list(cb.items())
    mon.equal([type(x) is ShadowCopy.ControlBlockItem3 for x in got], [t == 3 for t, __, ___ in want], 'catalog.items', ctx)
    for x, (t, w, ft) in zip(got, want):
        fields(mon, x, w, 'item%d' % t, ctx)
        if t == 2:
            mon.check(ntfs.instant_ok(x.get_timestamp(), ft), 'item2.get_timestamp', lambda: 'got %s for %d' % (x.get_timestamp(), ft))
        mon.count('catalog_items')
    mon.sig(('catalog', n, o1 == 0))


def case_blocks(rng, mon):
    o2, o3 = (1 + num(rng, 40)) * 0x4000, num(rng, 40) * 0x4000
    mk = lambda t, body: vss_head(rng, t, num(rng, 64), o2, o3) + ntfs.rnd_bytes(rng, 80) + body + ntfs.rnd_bytes(rng, 0)
    ctx = ''
    body = ntfs.rnd_bytes(rng, 0x3F80)
    bm = ShadowCopy.Bitmap(mk(6, body))
    fields(mon, bm, dict(get_bitmap=body, get_volume_offset=o2, get_next_volume_offset=o3), 'bitmap', ctx)
    ai = ShadowCopy.ApplicationInformation(mk(4, body))
    fields(mon, ai, dict(get_application_information=body, get_volume_offset=o2), 'application', ctx)
    n = rng.choice([0, 1, 3, 100, 508, rng.randint(0, 508)])
    ents, out = [], b''
    for k in range(n):
        fl = rng.choice([0, 0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 5, 6, 0xC8])
        e = (num(rng, 48) * 0x4000, num(rng, 64), (num(rng, 48, 1)) * 0x4000, fl, num(rng, 32))
        out += struct.pack('<QQQLL', *e)
        if not fl & 4:
            ents.append(e)
    out = (out + bytes(32) + ntfs.rnd_bytes(rng, 0x4000))[:0x3F80]
    da = ShadowCopy.DiffAreaTable(mk(3, out))
    mon.equal([tuple(x) for x in da.get_diff_area()], ents, 'diff-area', '%d entries' % n)
    fields(mon, da, dict(get_volume_offset=o2, get_next_volume_offset=o3), 'diff-area', ctx)
    n = rng.choice([0, 1, 3, 100, 677, rng.randint(0, 677)])
    items = [(num(rng, 64, 1), num(rng, 64), num(rng, 64, 1)) for __ in range(n)]
    out = (b''.join(struct.pack('<QQQ', *x) for x in items) + bytes(24) + ntfs.rnd_bytes(rng, 0x4000))[:0x3F80]
    ld = ShadowCopy.LocationDescription(mk(5, out))
    mon.equal([tuple(x) for x in ld.get_location_description_items()], items, 'locations', '%d items' % n)
    fields(mon, ld, dict(get_volume_offset=o2, get_next_volume_offset=o3), 'locations', ctx)
    mon.count('blocks')
    # A block of another type, another size or another owner is not taken for it.
    for cls, t in ((ShadowCopy.Bitmap, 6), (ShadowCopy.ApplicationInformation, 4), (ShadowCopy.DiffAreaTable, 3), (ShadowCopy.LocationDescription, 5), (ShadowCopy.ControlBlock, 2)):
        other = rng.choice([x for x in (0, 1, 2, 3, 4, 5, 6, 7, t + 256) if x != t])
        blk = vss_head(rng, other, 0, o2, 0) + ntfs.rnd_bytes(rng, 0x4000 - 48)
        mon.raises((ShadowCopy.ShadowCopyException,), lambda: cls(blk), 'block-refused:type', cls.__name__)
        blk = vss_head(rng, t, 0, o2, 0) + ntfs.rnd_bytes(rng, 0x4000 - 48)
        mon.raises((ShadowCopy.ShadowCopyException,), lambda: cls(blk[:rng.choice([0x3FFF, 512])]), 'block-refused:size', cls.__name__)
        bad = bytearray(blk)
        bad[rng.randrange(16)] ^= 1
        mon.raises((ShadowCopy.ShadowCopyException,), lambda: cls(bytes(bad)), 'block-refused:guid', cls.__name__)
        mon.count('blocks_refused')
    mon.sig(('blocks', n > 0))


FAMILIES = [
    ('fat', case_fat, 20000, 180000),
    ('fat-refused', case_fat_refused, 10000, 60000),
    ('fsinfo', case_fsinfo, 2500, 15000),
    ('fat-flags', case_fat_flags, 4000, 24000),
    ('exfat', case_exfat, 2000, 12000),
    ('ntfs', case_ntfs, 15000, 120000),
    ('restart', case_restart, 12500, 120000),
    ('checkpoint', case_checkpoint, 7500, 60000),
    ('start', case_start, 7500, 60000),
    ('catalog', case_catalog, 4000, 30000),
    ('blocks', case_blocks, 1500, 9000),
]
